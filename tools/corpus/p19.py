V = 'core/nodes/vecs.go'
N = 'core/nodes/nodes.go'
SU = 'pkg/kmeans/rpc/serverutils.go'
S = 'pkg/kmeans/rpc/server.go'
G = 'core/dps/getdps.go'
PU = 'core/dps/putdps.go'

bad('P19-addrs-unfiltered', "P19",
    (N, 'args.AddrOpts = rsp.intoAddrs() // Correlate order with \'gen\'.', '_ = rsp.intoAddrs'))
bad('P19-keeps-failed', "P19", (V, 'if data.ok {', 'if data.ok || data.vec == nil {'))
bad('P19-keeps-failed-server', "P19", (SU, 'if data.ok {', 'if data.addr != "" {'))
bad('P19-wrong-index', "P19", (N, 'for _, index := range args.KNNSearchFunc', 'for index := range args.KNNSearchFunc'))
bad('P19-wrong-index-server', "P19", (S, 'for _, index := range searchutils.KNNCos(dp.Vec, gen, len(addrs))', 'for index := range searchutils.KNNCos(dp.Vec, gen, len(addrs))'))
bad('P19-ok-true', "P19", (V, 'vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()\n\t\treturn vec, err == nil && vec != nil', 'vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()\n\t\treturn vec, err == nil || vec == nil'))
bad('P19-gen-skips-first', "P19", (V, 'i := 0\n\treturn func', 'i := 1\n\treturn func'))
bad('P19-gen-off', "P19", (V, 'return (*f)[i-1].vec, true', 'return (*f)[i%len(*f)].vec, true'))
bad('P19-gen-ends-early', "P19", (SU, 'if i >= len(*f) {', 'if i >= len(*f)-1 {'))
bad('P19-k-one-less', "P19", (N, 'gen, len(args.AddrOpts)) {', 'gen, len(args.AddrOpts)-1) {'))
bad('P19-reverse-order', "P19", (N, 'res = append(res, args.AddrOpts[index])', 'res = append([]Addr{args.AddrOpts[index]}, res...)'))
bad('P19-kfn', "P19", (S, 'searchutils.KNNCos(dp.Vec', 'searchutils.KFNCos(dp.Vec'))
bad('P19-wrong-addr-pair', "P19", (SU, 'ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}', 'ch <- fetchVecsRes{vec: vec, addr: addrs[0], ok: ok}'))
bad('P19-query-of-first', "P19", (S, 'NearestCentroidVec(dp.Vec)', 'NearestCentroidVec(dps[0].Vec)'))
bad('P19-shuffled', "P19", (G, 'func GetDataPointsFast(args GetDataPointsArgs) []DataPoint {\n\taddrs := nodes.BestFitNodesFast(args.toBestFitNodesArgs())', 'func GetDataPointsFast(args GetDataPointsArgs) []DataPoint {\n\taddrs := shuffleAddrs(nodes.BestFitNodesFast(args.toBestFitNodesArgs()))'))
bad('P19-put-backwards', "P19", (PU, 'for _, addr := range addrOpt {\n', 'for i := range addrOpt {\n\t\taddr := addrOpt[len(addrOpt)-1-i]\n'))
bad('P19-put-fast-for-accurate', "P19", (PU, 'addrs := nodes.BestFitNodesAccurate(', 'addrs := nodes.BestFitNodesFast('))
bad('P19-sort-between', "P19", (N, 'args.AddrOpts = rsp.intoAddrs()', 'sort.Slice(*rsp, func(i, j int) bool { return (*rsp)[i].addr.ToStr() < (*rsp)[j].addr.ToStr() })\n\targs.AddrOpts = rsp.intoAddrs()'), (N, '"trypo/pkg/arbiter"\n', '"sort"\n\t"trypo/pkg/arbiter"\n'))
bad('P19-collected-by-slot', "P19", (V, '''	r := make(fetchVecsResSlice, 0, f.chlen)
	for i := 0; i < f.chlen; i++ {
		data := <-f.ch
		if data.ok {
			r = append(r, data)
		}
	}
	return &r
''', '''	r := make(fetchVecsResSlice, 0, f.chlen)
	last := fetchVecsRes{}
	for i := 0; i < f.chlen; i++ {
		data := <-f.ch
		if data.ok {
			r = append(r, fetchVecsRes{vec: data.vec, addr: last.addr, ok: true})
		}
		last = data
	}
	return &r
'''))

good('P19-two-lists', (N, '''	rsp := fch.collect()
	gen := rsp.intoVecGenerator()

	args.AddrOpts = rsp.intoAddrs() // Correlate order with 'gen'.
''', '''	vecs := make([][]float64, 0)
	addrs := make([]Addr, 0)
	for i := 0; i < fch.chlen; i++ {
		data := <-fch.ch
		if !data.ok {
			continue
		}
		vecs = append(vecs, data.vec)
		addrs = append(addrs, data.addr)
	}
	i := -1
	gen := func() ([]float64, bool) {
		i++
		if i < len(vecs) {
			return vecs[i], true
		}
		return nil, false
	}
	args.AddrOpts = addrs
'''), (V, '''// Unwrap channel in fetchVecsChan.
func (f *fetchVecsChan) collect() *fetchVecsResSlice {
	r := make(fetchVecsResSlice, 0, f.chlen)
	for i := 0; i < f.chlen; i++ {
		data := <-f.ch
		if data.ok {
			r = append(r, data)
		}
	}
	return &r
}
''', ''))
good('P19-indexes-first', (N, '''	for _, index := range args.KNNSearchFunc(args.Vec, gen, len(args.AddrOpts)) {
		res = append(res, args.AddrOpts[index])
	}
''', '''	indexes := args.KNNSearchFunc(args.Vec, gen, len(*rsp))
	for i := 0; i < len(indexes); i++ {
		addr := args.AddrOpts[indexes[i]]
		res = append(res, addr)
	}
'''))
good('P19-by-struct', (N, '''	args.AddrOpts = rsp.intoAddrs() // Correlate order with 'gen'.
	for _, index := range args.KNNSearchFunc(args.Vec, gen, len(args.AddrOpts)) {
		res = append(res, args.AddrOpts[index])
''', '''	for _, index := range args.KNNSearchFunc(args.Vec, gen, len(*rsp)) {
		res = append(res, (*rsp)[index].addr)
'''))
good('P19-early-empty', (N, '''	gen := rsp.intoVecGenerator()
''', '''	if len(*rsp) == 0 {
		return res
	}
	gen := rsp.intoVecGenerator()
'''))
good('P19-filter-by-vec', (V, '		if data.ok {', '		if data.vec != nil {'))
good('P19-ok-by-steps', (V, '''		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil
''', '''		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		if err != nil || vec == nil {
			return nil, false
		}
		return vec, true
'''))
good('P19-distribute-inline', (S, '''	for _, index := range searchutils.KNNCos(dp.Vec, gen, len(addrs)) {
		client := KMeansClient(addrs[index], namespace, nil)
		if client.AddDataPoint(dp) {
			return true
		}
	}
	return false
''', '''	order := searchutils.KNNCos(dp.Vec, gen, len(addrs))
	added := false
	for i := 0; i < len(order) && !added; i++ {
		addr := addrs[order[i]]
		added = KMeansClient(addr, namespace, nil).AddDataPoint(dp)
	}
	return added
'''))
good('P19-gen-range', (SU, '''	i := 0
	return func() ([]float64, bool) {
		if i >= len(*f) {
			return nil, false
		}
		i++
		return (*f)[i-1].vec, true
	}
''', '''	list, next := *f, 0
	return func() (vec []float64, ok bool) {
		if ok = next < len(list); ok {
			vec = list[next].vec
			next++
		}
		return
	}
'''))
good('P19-addrs-append', (SU, '''	res := make([]string, len(*f))
	for i, r := range *f {
		res[i] = r.addr
	}
	return res
''', '''	res := make([]string, 0, len(*f))
	for i := range *f {
		res = append(res, (*f)[i].addr)
	}
	return res
'''))
