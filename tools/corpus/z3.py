# Further refactorings, for functions that the other files leave alone.
CL = "pkg/kmeans/rpc/client.go"
SV = "pkg/kmeans/rpc/server.go"
SU = "pkg/kmeans/rpc/serverutils.go"
RPC = "pkg/kmeans/rpc/rpc.go"
GD = "core/dps/getdps.go"
PD = "core/dps/putdps.go"
DD = "core/dps/dps.go"
ND = "core/nodes/nodes.go"
VS = "core/nodes/vecs.go"
ET = "core/eventloop/eltask.go"
EU = "core/eventloop/eltaskutils.go"
LG = "core/eventloop/log.go"
CF = "core/eventloop/cfg.go"
EL = "core/eventloop/el.go"
AR = "pkg/arbiter/arbiter.go"

# --- client: one helper for all of the calls
CALL = '''
// call runs one method of the remote server.
func (c *kmeansClient) call(method string, args, resp interface{}) {
	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer."+method, args, resp)
	})
}

// Namespaces fetches'''
good("Z3-cl-call-all", (CL, "\n// Namespaces fetches", CALL),
     (CL, '''	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.Namespaces", 0, &resp)
	})
''', '''	c.call("Namespaces", 0, &resp)
'''),
     (CL, '''	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.Vec", c.namespace, &resp)
	})
''', '''	c.call("Vec", c.namespace, &resp)
'''),
     (CL, '''	c.client(func(rc *rpc.Client) {
		args := AddDataPointArgs{NameSpace: c.namespace, DP: dp}
		*c.err = rc.Call("KMeansServer.AddDataPoint", args, &resp)
	})
''', '''	c.call("AddDataPoint", AddDataPointArgs{NameSpace: c.namespace, DP: dp}, &resp)
'''),
     (CL, '''	c.client(func(rc *rpc.Client) {
		args := DrainArgs{NameSpace: c.namespace, N: n}
		*c.err = rc.Call("KMeansServer.DrainUnordered", args, &resp)
	})
''', '''	c.call("DrainUnordered", DrainArgs{NameSpace: c.namespace, N: n}, &resp)
'''),
     (CL, '''	c.client(func(rc *rpc.Client) {
		args := DrainArgs{NameSpace: c.namespace, N: n}
		*c.err = rc.Call("KMeansServer.DrainOrdered", args, &resp)
	})
''', '''	c.call("DrainOrdered", DrainArgs{NameSpace: c.namespace, N: n}, &resp)
'''),
     (CL, '''	c.client(func(rc *rpc.Client) {
		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
		*c.err = rc.Call("KMeansServer.KNNLookup", args, &resp)
	})
''', '''	args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
	c.call("KNNLookup", args, &resp)
'''),
     (CL, '''	c.client(func(rc *rpc.Client) {
		args := NearestCentroidArgs{NameSpace: c.namespace, Vec: vec, N: n, Drain: drain}
		*c.err = rc.Call("KMeansServer.NearestCentroids", args, &resp)
	})
''', '''	c.call("NearestCentroids", NearestCentroidArgs{
		NameSpace: c.namespace,
		Vec:       vec,
		N:         n,
		Drain:     drain,
	}, &resp)
'''),
     (CL, '''	c.client(func(rc *rpc.Client) {
		args := StealCentroidArgs{
			FromAddr:        fromAddr,
			NameSpace:       c.namespace,
			TransferDPLimit: transferLimit,
		}
		resp := StealCentroidsResp{}
		*c.err = rc.Call("KMeansServer.StealCentroid", args, &resp)
		n = resp.TransferredN
		ok = resp.OK
	})
''', '''	args := StealCentroidArgs{
		FromAddr:        fromAddr,
		NameSpace:       c.namespace,
		TransferDPLimit: transferLimit,
	}
	resp := StealCentroidsResp{}
	c.call("StealCentroid", args, &resp)
	n, ok = resp.TransferredN, resp.OK
'''))
good("Z3-cl-drain-helper",
     (CL, '''	var resp []DataPoint

	c.client(func(rc *rpc.Client) {
		args := DrainArgs{NameSpace: c.namespace, N: n}
		*c.err = rc.Call("KMeansServer.DrainUnordered", args, &resp)
	})

	return resp
''', '''	return c.drain("KMeansServer.DrainUnordered", n)
'''),
     (CL, '''	var resp []DataPoint

	c.client(func(rc *rpc.Client) {
		args := DrainArgs{NameSpace: c.namespace, N: n}
		*c.err = rc.Call("KMeansServer.DrainOrdered", args, &resp)
	})

	return resp
}
''', '''	return c.drain("KMeansServer.DrainOrdered", n)
}

func (c *kmeansClient) drain(method string, n int) (dps []DataPoint) {
	args := DrainArgs{N: n, NameSpace: c.namespace}
	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call(method, args, &dps)
	})
	return
}
'''))
good("Z3-cl-split-args",
     (CL, '''		args := SplitCentroidsArgs{
			NameSpace:  c.namespace,
			DPRangeMin: dpRangeMin,
			DPRangeMax: dpRangeMax,
		}
		*c.err = rc.Call("KMeansServer.SplitCentroids", args, nil)
''', '''		*c.err = rc.Call("KMeansServer.SplitCentroids", c.rangeArgs(dpRangeMin, dpRangeMax), nil)
'''),
     (CL, '''		args := SplitCentroidsArgs{
			NameSpace:  c.namespace,
			DPRangeMin: dpRangeMin,
			DPRangeMax: dpRangeMax,
		}
		*c.err = rc.Call("KMeansServer.MergeCentroids", args, nil)
''', '''		*c.err = rc.Call("KMeansServer.MergeCentroids", c.rangeArgs(dpRangeMin, dpRangeMax), nil)
'''),
     (CL, "// Meta fetches metadata", '''func (c *kmeansClient) rangeArgs(min, max int) (args SplitCentroidsArgs) {
	args.NameSpace = c.namespace
	args.DPRangeMin = min
	args.DPRangeMax = max
	return args
}

// Meta fetches metadata'''))
good("Z3-cl-distrib-helper",
     (CL, '''	c.client(func(rc *rpc.Client) {
		args := DistribDPArgs{NameSpace: c.namespace, N: n, AddrOptions: addrs}
		*c.err = rc.Call("KMeansServer.DistributeDataPointsFast", args, nil)
	})
''', '''	c.distribute("KMeansServer.DistributeDataPointsFast", addrs, n)
'''),
     (CL, '''	c.client(func(rc *rpc.Client) {
		args := DistribDPArgs{NameSpace: c.namespace, N: n, AddrOptions: addrs}
		*c.err = rc.Call("KMeansServer.DistributeDataPointsAccurate", args, nil)
	})
}
''', '''	c.distribute("KMeansServer.DistributeDataPointsAccurate", addrs, n)
}

func (c *kmeansClient) distribute(method string, addrs []string, n int) {
	args := DistribDPArgs{
		AddrOptions: addrs,
		NameSpace:   c.namespace,
		N:           n,
	}
	c.client(func(rc *rpc.Client) { *c.err = rc.Call(method, args, nil) })
}
'''))
good("Z3-cl-expire-err", (CL, '''		*c.err = rc.Call("KMeansServer.Expire", c.namespace, nil)
''', '''		err := rc.Call("KMeansServer.Expire", c.namespace, nil)
		*c.err = err
'''), (CL, '''		*c.err = rc.Call("KMeansServer.MemTrim", c.namespace, nil)
''', '''		if err := rc.Call("KMeansServer.MemTrim", c.namespace, nil); err != nil {
			*c.err = err
		} else {
			*c.err = nil
		}
'''))
good("Z3-cl-steal-direct", (CL, '''	var n int
	var ok bool
	c.client(''', '''	var resp StealCentroidsResp
	c.client('''), (CL, '''		resp := StealCentroidsResp{}
		*c.err = rc.Call("KMeansServer.StealCentroid", args, &resp)
		n = resp.TransferredN
		ok = resp.OK
	})
	return n, ok
''', '''		*c.err = rc.Call("KMeansServer.StealCentroid", args, &resp)
	})
	return resp.TransferredN, resp.OK
'''))
good("Z3-cl-dial-helper", (CL, '''	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err != nil {
		*c.err = err
		return
	}
	defer client.Close()
	taskF(client)
''', '''	client, err := c.dial()
	if err == nil {
		defer client.Close()
		taskF(client)
	} else {
		*c.err = err
	}
'''), (CL, "// Namespaces fetches", '''func (c *kmeansClient) dial() (*rpc.Client, error) {
	return rpc.Dial("tcp", c.remoteAddr)
}

// Namespaces fetches'''))
good("Z3-cl-bool-named", (CL, '''func (c *kmeansClient) AddDataPoint(dp DataPoint) bool {
	var resp bool

	c.client(func(rc *rpc.Client) {
		args := AddDataPointArgs{NameSpace: c.namespace, DP: dp}
		*c.err = rc.Call("KMeansServer.AddDataPoint", args, &resp)
	})

	return resp
''', '''func (c *kmeansClient) AddDataPoint(dp DataPoint) (added bool) {
	args := AddDataPointArgs{c.namespace, dp}
	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.AddDataPoint", args, &added)
	})
	return added
'''), (CL, '''func (c *kmeansClient) MoveVector() bool {
	var resp bool

	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.MoveVector", c.namespace, &resp)
	})

	return resp
''', '''func (c *kmeansClient) MoveVector() bool {
	moved := false
	task := func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.MoveVector", c.namespace, &moved)
	}
	c.client(task)
	return moved
'''))
good("Z3-cl-nc-filter", (CL, '''	// Remove nil/empty(no dps) centroids.
	for i := len(resp) - 1; i >= 0; i-- { // Backwards for removal safety.
		if resp[i] == nil || resp[i].LenDP() == 0 {
			resp = append(resp[:i], resp[i+1:]...)
		}
	}
''', '''	resp = withDataPoints(resp)
'''), (CL, "// Connects to a remmote node", '''// withDataPoints removes nil/empty(no dps) centroids.
func withDataPoints(cs []*Centroid) []*Centroid {
	kept := make([]*Centroid, 0, len(cs))
	for _, c := range cs {
		if c != nil && c.LenDP() > 0 {
			kept = append(kept, c)
		}
	}
	return kept
}

// Connects to a remmote node'''))
good("Z3-cl-nc-reinit", (CL, '''	for i := 0; i < len(resp); i++ {
		dps := resp[i].DataPoints
		// No empty check since empty Centroids were removed above.
		newCentroid := c.CentroidFactory(dps[0].Vec)
		newCentroid.DataPoints = dps
		newCentroid.MoveVector()
		resp[i] = newCentroid
	}

	return resp, true
''', '''	for i, broken := range resp {
		resp[i] = c.reinit(broken)
	}
	return resp, true
'''), (CL, "// Connects to a remmote node", '''// reinit makes a working centroid of one that was sent.
func (c *kmeansClient) reinit(broken *Centroid) *Centroid {
	fresh := c.CentroidFactory(broken.DataPoints[0].Vec)
	fresh.DataPoints = broken.DataPoints
	fresh.MoveVector()
	return fresh
}

// Connects to a remmote node'''))

# --- dps
good("Z3-gd-args", (GD, '''	addrs := shuffleAddrs(args.AddrOptions)
	return getDataPoints(args.toPrivate(addrs))
''', '''	private := args.toPrivate(shuffleAddrs(args.AddrOptions))
	return getDataPoints(private)
'''), (GD, '''	addrs := nodes.BestFitNodesFast(args.toBestFitNodesArgs())
	return getDataPoints(args.toPrivate(addrs))
''', '''	return getDataPoints(args.toPrivate(nodes.BestFitNodesFast(args.toBestFitNodesArgs())))
'''))
good("Z3-gd-find", (GD, '''	addrs := nodes.BestFitNodesFast(args.toBestFitNodesArgs())
	return getDataPoints(args.toPrivate(addrs))
''', '''	return args.from(nodes.BestFitNodesFast)
'''), (GD, '''	addrs := nodes.BestFitNodesAccurate(args.toBestFitNodesArgs())
	return getDataPoints(args.toPrivate(addrs))
''', '''	return args.from(nodes.BestFitNodesAccurate)
'''), (GD, "func (a *GetDataPointsArgs) toBestFitNodesArgs", '''func (a *GetDataPointsArgs) from(find func(nodes.BestFitNodesArgs) []Addr) []DataPoint {
	return getDataPoints(a.toPrivate(find(a.toBestFitNodesArgs())))
}

func (a *GetDataPointsArgs) toBestFitNodesArgs'''))
good("Z3-gd-nostruct", (GD, '''	addrs := shuffleAddrs(args.AddrOptions)
	return getDataPoints(args.toPrivate(addrs))
''', '''	return args.collect(shuffleAddrs(args.AddrOptions))
'''), (GD, '''	addrs := nodes.BestFitNodesFast(args.toBestFitNodesArgs())
	return getDataPoints(args.toPrivate(addrs))
''', '''	return args.collect(nodes.BestFitNodesFast(args.toBestFitNodesArgs()))
'''), (GD, '''	addrs := nodes.BestFitNodesAccurate(args.toBestFitNodesArgs())
	return getDataPoints(args.toPrivate(addrs))
''', '''	return args.collect(nodes.BestFitNodesAccurate(args.toBestFitNodesArgs()))
'''), (GD, "func (a *GetDataPointsArgs) toBestFitNodesArgs", '''func (a *GetDataPointsArgs) collect(addrs []Addr) []DataPoint {
	res := []DataPoint{}
	for i := 0; i < len(addrs) && (i == 0 || len(res) < a.N); i++ {
		client := rpc.KMeansClient(addrs[i].ToStr(), a.Namespace, nil)
		res = append(res, client.KNNLookup(a.QueryVec, a.N-len(res), a.Drain)...)
	}
	return res
}

func (a *GetDataPointsArgs) toBestFitNodesArgs'''))
good("Z3-pd-variants", (PD, '''	addrs := nodes.BestFitNodesFast(args.toBestFitNodesArgs())
	return putDataPoint(addrs, args.Namespace, args.DataPoint)
''', '''	return args.putAt(nodes.BestFitNodesFast(args.toBestFitNodesArgs()))
'''), (PD, '''	addrs := nodes.BestFitNodesAccurate(args.toBestFitNodesArgs())
	return putDataPoint(addrs, args.Namespace, args.DataPoint)
''', '''	return args.putAt(nodes.BestFitNodesAccurate(args.toBestFitNodesArgs()))
'''), (PD, '''	addrs := shuffleAddrs(args.AddrOptions)
	return putDataPoint(addrs, args.Namespace, args.DataPoint)
''', '''	return args.putAt(shuffleAddrs(args.AddrOptions))
'''), (PD, "func (a *PutDataPointArgs) toBestFitNodesArgs", '''func (a *PutDataPointArgs) putAt(addrs []Addr) bool {
	return putDataPoint(addrs, a.Namespace, a.DataPoint)
}

func (a *PutDataPointArgs) toBestFitNodesArgs'''))
good("Z3-pd-index", (PD, '''	for _, addr := range addrOpt {
		client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
		ok := client.AddDataPoint(dp)
		if ok {
			return true
		}
	}
	return false
''', '''	stored := false
	for i := 0; !stored && i < len(addrOpt); i++ {
		client := rpc.KMeansClient(addrOpt[i].ToStr(), namespace, nil)
		stored = client.AddDataPoint(dp)
	}
	return stored
'''))
good("Z3-dd-shuffle", (DD, '''	res := make([]Addr, len(addrs))
	copy(res, addrs)

	for i := 0; i < len(addrs); i++ {
		rand.Seed(time.Now().UnixNano())
		j := rand.Intn(len(addrs))
		res[i], res[j] = res[j], res[i]
	}
	return res
''', '''	res := append([]Addr(nil), addrs...)

	rand.Seed(time.Now().UnixNano())
	for i := range res {
		j := rand.Intn(len(res))
		if i != j {
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
'''))

# --- nodes
good("Z3-nd-fetch-method", (ND, '''func bestFitNodes(args BestFitNodesArgs, fetcher func() *fetchVecsChan) []Addr {
	res := make([]Addr, 0, len(args.AddrOpts))
	fch := fetcher()
	rsp := fch.collect()
''', '''func bestFitNodes(args BestFitNodesArgs, fch *fetchVecsChan) []Addr {
	res := make([]Addr, 0, len(args.AddrOpts))
	rsp := fch.collect()
'''), (ND, '''	return bestFitNodes(args, func() *fetchVecsChan {
		return fetchVecsFast(args.AddrOpts, args.Namespace)
	})
''', '''	return bestFitNodes(args, fetchVecsFast(args.AddrOpts, args.Namespace))
'''), (ND, '''	return bestFitNodes(args, func() *fetchVecsChan {
		return fetchVecsAccurate(args.AddrOpts, args.Namespace, args.Vec)
	})
''', '''	return bestFitNodes(args, fetchVecsAccurate(args.AddrOpts, args.Namespace, args.Vec))
'''))
good("Z3-vs-acc-inline", (VS, '''		client := rpc.KMeansClient(addr.ToStr(), namespace, &err)
		vec := client.NearestCentroidVec(qVec)
		return vec, err == nil && vec != nil
''', '''		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).NearestCentroidVec(qVec)
		if err != nil || vec == nil {
			return nil, false
		}
		return vec, true
'''))
good("Z3-vs-struct-chan", (VS, '''		go func(addr Addr) {
			vec, ok := fetchFunc(addr)
			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}
		}(addr)
''', '''		go fetchInto(ch, addr, fetchFunc)
'''), (VS, '''func fetchVecsFast(''', '''func fetchInto(ch chan<- fetchVecsRes, addr Addr, fetch func(Addr) ([]float64, bool)) {
	res := fetchVecsRes{addr: addr}
	res.vec, res.ok = fetch(addr)
	ch <- res
}

func fetchVecsFast('''))
good("Z3-vs-gen-struct", (VS, '''	i := 0
	return func() ([]float64, bool) {
		if i >= len(*f) {
			return nil, false
		}
		i++
		return (*f)[i-1].vec, true
	}
''', '''	items, next := *f, 0
	return func() (vec []float64, ok bool) {
		if ok = next < len(items); ok {
			vec = items[next].vec
			next++
		}
		return vec, ok
	}
'''))
good("Z3-vs-addrs-append", (VS, '''	res := make([]Addr, len(*f))
	for i, r := range *f {
		res[i] = r.addr
	}
	return res
''', '''	var res []Addr
	for i := range *f {
		res = append(res, (*f)[i].addr)
	}
	return res
'''))

# --- event loop
good("Z3-el-forward", (ET, '''				addrs := make([]string, len(table.items[namespace]))
				for i, addr := range table.items[namespace] {
					addrs[i] = addr.ToStr()
				}
				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				n := cfg.DistributeDataPointsFastN
				client.DistributeDataPointsFast(addrs, n)
''', '''				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				client.DistributeDataPointsFast(
					table.addrStrings(namespace), cfg.DistributeDataPointsFastN)
'''), (ET, '''				addrs := make([]string, len(table.items[namespace]))
				for i, addr := range table.items[namespace] {
					addrs[i] = addr.ToStr()
				}
				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				n := cfg.DistributeDataPointsAccurateN
				client.DistributeDataPointsAccurate(addrs, n)
''', '''				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				client.DistributeDataPointsAccurate(
					table.addrStrings(namespace), cfg.DistributeDataPointsAccurateN)
'''), (EU, "func (t *addrNamespaceTable) namespaces", '''func (t *addrNamespaceTable) addrStrings(namespace string) []string {
	addrs := t.addrsWithNamespace(namespace)
	res := make([]string, 0, len(addrs))
	for _, addr := range addrs {
		res = append(res, addr.ToStr())
	}
	return res
}

func (t *addrNamespaceTable) namespaces'''))
good("Z3-el-client-arg", (ET, '''func withLocalAddrNamespaces(cfg *EventLoopConfig, task func(addr Addr, namespace string)) {
	namespaces := rpc.KMeansClient(cfg.LocalAddr.ToStr(), "", nil).Namespaces()
	for _, ns := range namespaces {
		task(cfg.LocalAddr, ns)
	}
}
''', '''func withLocalAddrNamespaces(cfg *EventLoopConfig, task func(addr Addr, namespace string)) {
	local := cfg.LocalAddr
	client := rpc.KMeansClient(local.ToStr(), "", nil)
	for _, ns := range client.Namespaces() {
		task(local, ns)
	}
}
'''))
good("Z3-el-split-go", (ET, '''			client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
			go client.SplitCentroids(cfg.SplitCentroidsMin, cfg.SplitCentroidsMax)
''', '''			min, max := cfg.SplitCentroidsMin, cfg.SplitCentroidsMax
			go rpc.KMeansClient(addr.ToStr(), namespace, nil).SplitCentroids(min, max)
'''), (ET, '''			client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
			n := cfg.DistributeDataPointsInternalN
			go client.DistributeDataPointsInternal(n)
''', '''			client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
			go client.DistributeDataPointsInternal(cfg.DistributeDataPointsInternalN)
'''))
good("Z3-el-helper-local", (ET, '''	withSkip(cfg, cfg.TaskSkip.SplitCentroids, func() {
		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {
			cfg.L.LogTask(fmt.Sprintf("(ns '%v') splitting", namespace))

			client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
			go client.SplitCentroids(cfg.SplitCentroidsMin, cfg.SplitCentroidsMax)
		})
	})
''', '''	localTask(cfg, cfg.TaskSkip.SplitCentroids, "splitting", func(addr, namespace string) {
		go rpc.KMeansClient(addr, namespace, nil).SplitCentroids(
			cfg.SplitCentroidsMin, cfg.SplitCentroidsMax)
	})
'''), (ET, '''	withSkip(cfg, cfg.TaskSkip.MergeCentroids, func() {
		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {
			cfg.L.LogTask(fmt.Sprintf("(ns '%v') merging", namespace))

			client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
			go client.MergeCentroids(cfg.MergeCentroidsMin, cfg.MergeCentroidsMax)
		})
	})
}
''', '''	localTask(cfg, cfg.TaskSkip.MergeCentroids, "merging", func(addr, namespace string) {
		go rpc.KMeansClient(addr, namespace, nil).MergeCentroids(
			cfg.MergeCentroidsMin, cfg.MergeCentroidsMax)
	})
}

// localTask runs a task for all namespaces of the local node, if it is due.
func localTask(cfg *EventLoopConfig, interval int, name string, task func(addr, namespace string)) {
	withSkip(cfg, interval, func() {
		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {
			cfg.L.LogTask(fmt.Sprintf("(ns '%v') %v", namespace, name))
			task(addr.ToStr(), namespace)
		})
	})
}
'''))
good("Z3-el-table-ret", (ET, '''func withNamespaceTable(cfg *EventLoopConfig, task func(addrNamespaceTable)) {
	table := addrNamespaceTable{}
	for _, addr := range cfg.RemoteAddrs {
		namespaces := rpc.KMeansClient(addr.ToStr(), "", nil).Namespaces()
		for _, namespace := range namespaces {
			table.addEntry(addr, namespace)
		}
	}
	task(table)
}
''', '''func withNamespaceTable(cfg *EventLoopConfig, task func(addrNamespaceTable)) {
	task(fetchNamespaceTable(cfg.RemoteAddrs))
}

func fetchNamespaceTable(remotes []Addr) (table addrNamespaceTable) {
	for i := range remotes {
		client := rpc.KMeansClient(remotes[i].ToStr(), "", nil)
		for _, ns := range client.Namespaces() {
			table.addEntry(remotes[i], ns)
		}
	}
	return table
}
'''))
good("Z3-eu-table", (EU, '''	if t.items == nil {
		t.items = make(map[string][]Addr)
	}

	slice, ok := t.items[namespace]
	if !ok {
		slice = make([]Addr, 0, 5)
	}

	slice = append(slice, addr)
	t.items[namespace] = slice

''', '''	if t.items == nil {
		t.items = make(map[string][]Addr)
	}
	t.items[namespace] = append(t.items[namespace], addr)
'''), (EU, '''	slice, ok := t.items[namespace]
	if !ok {
		slice = make([]Addr, 0, 0)
	}
	return slice
''', '''	return t.items[namespace]
'''), (EU, '''	r := make([]string, 0, len(t.items))
	for k := range t.items {
		r = append(r, k)
	}
	return r
''', '''	names, i := make([]string, len(t.items)), 0
	for name := range t.items {
		names[i] = name
		i++
	}
	return names
'''))
good("Z3-lb-helpers", (ET, '''				dpTotal := 0
				for _, dpLen := range addrsLens {
					dpTotal += dpLen
				}
				dpMean := dpTotal / len(addrsLens)
''', '''				dpMean := meanLen(addrsLens)
'''), (ET, "// Event-loop task for triggering the 'expire' procedure", '''func meanLen(lens map[Addr]int) int {
	total := 0
	for _, n := range lens {
		total += n
	}
	return total / len(lens)
}

// Event-loop task for triggering the 'expire' procedure'''))
good("Z3-lb-swap-adjust", (ET, '''					addrsLens[local] = addrsLens[local] + n
					addrsLens[other] = addrsLens[other] - n
''', '''					addrsLens[other] -= n
					addrsLens[local] += n
'''))
good("Z3-meta-order", (ET, '''		metaData := MetaData{Items: make(map[Addr]MetaDataItem)}
		pullFrom := make([]Addr, 0, len(cfg.RemoteAddrs))

		if cfg.LogLocalOnly {
			pullFrom = append(pullFrom, cfg.LocalAddr)
		} else {
			pullFrom = append(pullFrom, cfg.RemoteAddrs...)
		}

		for _, addr := range pullFrom {
			meta := rpc.KMeansClient(addr.ToStr(), "", nil).Meta()
			metaData.Items[addr] = MetaDataItem{
				LenDP:        meta.DPs,
				LenCentroids: meta.Centroids,
			}
		}
		cfg.L.LogMeta(metaData)
''', '''		pullFrom := cfg.RemoteAddrs
		if cfg.LogLocalOnly {
			pullFrom = []Addr{cfg.LocalAddr}
		}

		items := make(map[Addr]MetaDataItem, len(pullFrom))
		for _, addr := range pullFrom {
			items[addr] = fetchMeta(addr)
		}
		cfg.L.LogMeta(MetaData{Items: items})
'''), (ET, "// Event-loop task for triggering the 'expire' procedure", '''func fetchMeta(addr Addr) MetaDataItem {
	meta := rpc.KMeansClient(addr.ToStr(), "", nil).Meta()
	return MetaDataItem{LenDP: meta.DPs, LenCentroids: meta.Centroids}
}

// Event-loop task for triggering the 'expire' procedure'''))
good("Z3-lens-helper", (EU, '''			var err error
			client := rpc.KMeansClient(addr.ToStr(), namespace, &err)
			lenDP := client.LenDP()
			// NamespaceErr can be interpreted as dp len = 0. The type of
			// errors returned by a remote method is lost in net/rpc.
			_, castOK := err.(netrpc.ServerError)
			ok := err == nil || castOK
			ch <- nodeDPLen{addr, lenDP, ok}
''', '''			n, ok := remoteLenDP(addr, namespace)
			ch <- nodeDPLen{addr: addr, DPLen: n, ok: ok}
'''), (EU, "func fetchRemoteLenDPs(", '''func remoteLenDP(addr Addr, namespace string) (int, bool) {
	var err error
	n := rpc.KMeansClient(addr.ToStr(), namespace, &err).LenDP()
	if err == nil {
		return n, true
	}
	_, ok := err.(netrpc.ServerError)
	return n, ok
}

func fetchRemoteLenDPs('''))
good("Z3-lg-sum", (LG, '''			// Collect total amount of dps in the node (for all namespaces).
			dpLen := 0
			for _, l := range l.metaData.Items[addr].LenDP {
				dpLen += l
			}

			// Collect total amount of centroids in the node (for all namespaces).
			centroidLen := 0
			for _, l := range l.metaData.Items[addr].LenCentroids {
				centroidLen += l
			}

			nsLen := len(l.metaData.Items[addr].LenDP)
''', '''			item := l.metaData.Items[addr]
			dpLen := sum(item.LenDP)
			centroidLen := sum(item.LenCentroids)
			nsLen := len(item.LenDP)
'''), (LG, "func (l *defaultLogger) LogMeta", '''func sum(m map[string]int) (total int) {
	for _, n := range m {
		total += n
	}
	return
}

func (l *defaultLogger) LogMeta'''))

# --- arbiter
good("Z3-ar-session", (AR, '''	f := sessionmember.Funcs{RemoteVoteFunc: rpc.RemoteVoteFunc()}
	cfg2 := sessionmember.NewSessionMemberConfig{
		LocalAddr:       cfg.LocalAddr,
		Whitelist:       cfg.Whitelist,
		F:               f,
		SessionDuration: cfg.SessionDuration,
		ArbiterDuration: cfg.ArbiterDuration,
	}

	return sessionmember.NewSessionMember(cfg2)
''', '''	return sessionmember.NewSessionMember(cfg.convert())
'''), (AR, "func NewSessionMember(", '''func (cfg *NewSessionMemberConfig) convert() sessionmember.NewSessionMemberConfig {
	c := sessionmember.NewSessionMemberConfig{LocalAddr: cfg.LocalAddr, Whitelist: cfg.Whitelist}
	c.SessionDuration = cfg.SessionDuration
	c.ArbiterDuration = cfg.ArbiterDuration
	c.F.RemoteVoteFunc = rpc.RemoteVoteFunc()
	return c
}

func NewSessionMember('''))
good("Z3-ar-errs", (AR, '''	for addr, err := range *e {
		if err != nil {
			return addr, err
		}
	}
	return Addr{}, nil
''', '''	var at Addr
	var found error
	for addr, err := range *e {
		if err == nil {
			continue
		}
		at, found = addr, err
		break
	}
	return at, found
'''))
