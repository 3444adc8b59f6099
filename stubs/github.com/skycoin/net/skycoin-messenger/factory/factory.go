// Package factory is an offline stand-in for
// github.com/skycoin/net/skycoin-messenger/factory (discovery disabled).
package factory

import (
	"errors"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
)

const (
	DebugLevel = 5
	ErrorLevel = 2
)

type SeedConfig struct {
	Seed      string
	SecKey    string
	PublicKey string
}

func NewSeedConfig() (*SeedConfig, error) {
	pk, sk := cipher.GenerateKeyPair()
	return &SeedConfig{SecKey: sk.Hex(), PublicKey: pk.Hex()}, nil
}

func SecKeyToSeedConfig(sk cipher.SecKey) (*SeedConfig, error) {
	return &SeedConfig{SecKey: sk.Hex(), PublicKey: cipher.PubKeyFromSecKey(sk).Hex()}, nil
}

type Connection struct{}

func (*Connection) FindServiceNodesByKeys([]cipher.PubKey) error { return nil }
func (*Connection) UpdateServices(*NodeServices) error           { return nil }

type ConnConfig struct {
	SeedConfig                     *SeedConfig
	Reconnect                      bool
	ReconnectWait                  time.Duration
	FindServiceNodesByKeysCallback func(*QueryResp)
	OnConnected                    func(*Connection)
}

type NodeInfo struct {
	PubKey  cipher.PubKey
	Address string
}
type ServiceInfo struct {
	PubKey cipher.PubKey
	Nodes  []*NodeInfo
}
type QueryResp struct{ Result []*ServiceInfo }

type Service struct {
	Key               cipher.PubKey
	Attributes        []string
	Address           string
	HideFromDiscovery bool
	AllowNodes        []string
	Version           string
}
type NodeServices struct {
	Services       []*Service
	ServiceAddress string
	Location       string
	Version        []string
}
type AttrAppInfo struct {
	Key     cipher.PubKey
	Version string
}
type AttrNodeInfo struct {
	Node     cipher.PubKey
	Apps     []cipher.PubKey
	Location string
	Version  []string
	AppInfos []*AttrAppInfo
}
type AttrNodesInfo struct {
	Nodes []*AttrNodeInfo
	Count int64
}

type MessengerFactory struct {
	RegisterService           func(cipher.PubKey, *NodeServices) error
	UnRegisterService         func(cipher.PubKey) error
	FindByAttributes          func(...string) *AttrNodesInfo
	FindByAttributesAndPaging func(int, int, ...string) *AttrNodesInfo
	FindServiceAddresses      func([]cipher.PubKey, cipher.PubKey) []*ServiceInfo
}

func NewMessengerFactory() *MessengerFactory { return new(MessengerFactory) }

func (*MessengerFactory) SetLoggerLevel(int) {}
func (*MessengerFactory) ConnectWithConfig(string, *ConnConfig) error {
	return errors.New("discovery is not available offline")
}
func (*MessengerFactory) ForEachConn(func(*Connection))          {}
func (*MessengerFactory) Listen(string) error                    { return nil }
func (*MessengerFactory) Close() error                           { return nil }
func (*MessengerFactory) SetDefaultSeedConfig(*SeedConfig) error { return nil }
