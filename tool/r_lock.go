package main

func init() {
	text := "Every function that can be called or started from outside the layer is walked on all its paths with the set of held locks as typestate, following calls inside the layer; every access to a guarded field (and to the maps and records reached through it), every acquisition and release is an obligation; the pairs held/taken over all entries form a graph that has to be free of cycles. "
	register("K01", "stores are accessed under their lock", text, func(c *Ctx) { lockLayer(c, guardsData, 20, "data/cxds") })
	register("K02", "cache, index and filler state is accessed under its lock", text, func(c *Ctx) { lockLayer(c, guardsSky, 200, "skyobject") })
	register("K03", "node, connection and transport state is accessed under its lock", text, func(c *Ctx) { lockLayer(c, guardsNode, 60, "node") })
}

var guardsData = []guard{
	{pkg: "data/cxds", typ: "memoryCXDS", mutex: "mx", fields: []string{"kvs", "amountAll", "amountUsed", "voluemAll", "volumeUsed"}},
	{pkg: "data/cxds", typ: "driveCXDS", mutex: "mx", fields: []string{"amountAll", "amountUsed", "volumeAll", "volumeUsed"}},
}
var guardsSky = []guard{
	{pkg: "skyobject", typ: "Cache", mutex: "mx", fields: []string{"is", "rs", "amount", "volume"}, items: []string{"item.*", "itemRegistry.*"}},
	{pkg: "skyobject", typ: "Index", mutex: "mx", fields: []string{"feeds", "feedsl"}, items: []string{"indexHeads.*"}},
	{pkg: "skyobject", typ: "Filler", mutex: "mx", fields: []string{"incs", "pre"}, owner: "(*skyobject.Filler).Run", joined: "closeo"},
	{pkg: "skyobject", typ: "cxdsStat", mutex: "mx", fields: []string{"reads", "writes", "creads", "cwrites"}},
	{pkg: "skyobject", typ: "indexStat", mutex: "mx", fields: []string{"sr"}},
}
var guardsNode = []guard{
	{pkg: "node", typ: "Node", mutex: "mx", fields: []string{"pendConns", "addrToConn", "pkToConn", "ss"}},
	{pkg: "node", typ: "Conn", mutex: "mx", fields: []string{"seq", "reqs"}},
	{pkg: "node", typ: "TCP", mutex: "mx", fields: []string{"d", "address", "isListening", "cs"}},
	{pkg: "node", typ: "UDP", mutex: "mx", fields: []string{"d", "address", "isListening", "cs"}},
	{pkg: "node", typ: "Swarm", mutex: "mu", fields: []string{"peers"}},
}

func lockLayer(c *Ctx, gs []guard, floor int, rel string) {
	c.Rule("guarded", "a guarded field is read with its lock held (shared or exclusive) and written with it held exclusively, on every path of every entry; no lock is taken twice by one goroutine, released without being held, or left held on return", floor)
	c.Rule("order", "locks are never taken in a cyclic order", 0)
	order := map[string]string{}
	lockRule(c, "guarded", gs, c.P.entries(rel), func(w *Walker) { w.SamePkg = true }, order)
	acyclic(c, "order", order)
}
