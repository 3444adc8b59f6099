// Package encoder is an offline stand-in for
// github.com/skycoin/skycoin/src/cipher/encoder: little-endian, length-prefixed.
package encoder

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
)

var errShort = errors.New("encoder: buffer too short")

func skip(f reflect.StructField) bool {
	return f.Tag.Get("enc") == "-" || f.PkgPath != "" || f.Name == "_"
}

func Serialize(data interface{}) []byte {
	var v = reflect.Indirect(reflect.ValueOf(data))
	return enc(nil, v)
}

func enc(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return enc(b, v.Elem())
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Int16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Int()))
	case reflect.Int32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Int()))
	case reflect.Int64:
		return binary.LittleEndian.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Uint16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Uint()))
	case reflect.Uint32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Uint()))
	case reflect.Uint64:
		return binary.LittleEndian.AppendUint64(b, v.Uint())
	case reflect.Float32:
		return binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.String:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		return append(b, v.String()...)
	case reflect.Slice:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Map:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		for _, k := range v.MapKeys() {
			b = enc(b, k)
			b = enc(b, v.MapIndex(k))
		}
		return b
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if skip(v.Type().Field(i)) {
				continue
			}
			b = enc(b, v.Field(i))
		}
		return b
	}
	panic(fmt.Sprintf("encoder: unsupported kind %s", v.Kind()))
}

func DeserializeRaw(in []byte, data interface{}) (n uint64, err error) {
	return DeserializeRawToValue(in, reflect.ValueOf(data))
}

func DeserializeRawToValue(in []byte, v reflect.Value) (n uint64, err error) {
	if v.Kind() != reflect.Ptr {
		return 0, errors.New("encoder: pointer expected")
	}
	var rest []byte
	if rest, err = dec(in, v.Elem()); err != nil {
		return
	}
	return uint64(len(in) - len(rest)), nil
}

func dec(b []byte, v reflect.Value) ([]byte, error) {
	var fixed = func(n int) (p []byte, err error) {
		if len(b) < n {
			return nil, errShort
		}
		p, b = b[:n], b[n:]
		return
	}
	var p []byte
	var err error
	switch v.Kind() {
	case reflect.Bool:
		if p, err = fixed(1); err == nil {
			v.SetBool(p[0] != 0)
		}
	case reflect.Int8:
		if p, err = fixed(1); err == nil {
			v.SetInt(int64(int8(p[0])))
		}
	case reflect.Int16:
		if p, err = fixed(2); err == nil {
			v.SetInt(int64(int16(binary.LittleEndian.Uint16(p))))
		}
	case reflect.Int32:
		if p, err = fixed(4); err == nil {
			v.SetInt(int64(int32(binary.LittleEndian.Uint32(p))))
		}
	case reflect.Int64:
		if p, err = fixed(8); err == nil {
			v.SetInt(int64(binary.LittleEndian.Uint64(p)))
		}
	case reflect.Uint8:
		if p, err = fixed(1); err == nil {
			v.SetUint(uint64(p[0]))
		}
	case reflect.Uint16:
		if p, err = fixed(2); err == nil {
			v.SetUint(uint64(binary.LittleEndian.Uint16(p)))
		}
	case reflect.Uint32:
		if p, err = fixed(4); err == nil {
			v.SetUint(uint64(binary.LittleEndian.Uint32(p)))
		}
	case reflect.Uint64:
		if p, err = fixed(8); err == nil {
			v.SetUint(binary.LittleEndian.Uint64(p))
		}
	case reflect.Float32:
		if p, err = fixed(4); err == nil {
			v.SetFloat(float64(math.Float32frombits(binary.LittleEndian.Uint32(p))))
		}
	case reflect.Float64:
		if p, err = fixed(8); err == nil {
			v.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(p)))
		}
	case reflect.String:
		if p, err = fixed(4); err != nil {
			return nil, err
		}
		var n = int(binary.LittleEndian.Uint32(p))
		if n < 0 {
			return nil, errShort
		}
		if p, err = fixed(n); err == nil {
			v.SetString(string(p))
		}
	case reflect.Slice:
		if p, err = fixed(4); err != nil {
			return nil, err
		}
		var n = int(binary.LittleEndian.Uint32(p))
		if n < 0 || n > len(b) {
			return nil, errShort
		}
		if n == 0 {
			return b, nil
		}
		var s = reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			if b, err = dec(b, s.Index(i)); err != nil {
				return nil, err
			}
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if b, err = dec(b, v.Index(i)); err != nil {
				return nil, err
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if skip(v.Type().Field(i)) {
				continue
			}
			if b, err = dec(b, v.Field(i)); err != nil {
				return nil, err
			}
		}
	default:
		err = fmt.Errorf("encoder: unsupported kind %s", v.Kind())
	}
	if err != nil {
		return nil, err
	}
	return b, nil
}
