# More rewrites: rpc, nodes, dps, eventloop, api, search and vector helpers.
R = "pkg/kmeans/rpc/rpc.go"
S = "pkg/kmeans/rpc/server.go"
SU = "pkg/kmeans/rpc/serverutils.go"
CL = "pkg/kmeans/rpc/client.go"
K = "pkg/searchutils/knn.go"
MD = "pkg/mathutils/distance.go"
MV = "pkg/mathutils/vectools.go"
ARB = "pkg/arbiter/arbiter.go"
N = "core/nodes/nodes.go"
NV = "core/nodes/vecs.go"
DD = "core/dps/dps.go"
GD = "core/dps/getdps.go"
PD = "core/dps/putdps.go"
EL = "core/eventloop/el.go"
ET = "core/eventloop/eltask.go"
EU = "core/eventloop/eltaskutils.go"
EC = "core/eventloop/cfg.go"
A = "core/api/api.go"
H = "core/api/handler.go"
AC = "core/api/conv.go"

# --- rpc tables
good("Z2-slot-access-nodefer", (R, "	s.Lock()\n	defer s.Unlock()\n\n	f(s.cManager)", "	s.Lock()\n	cm := s.cManager\n	f(cm)\n	s.Unlock()"))
good("Z2-table-access", (R, "FUNC func (t *CManagerTable) Access(", '''
func (t *CManagerTable) Access(namespace string, f func(*CentroidManager)) bool {
	slot := t.slot(namespace)
	if slot == nil {
		return false
	}
	slot.Access(f)
	return true
}

// slot safely finds the slot of a namespace, nil if there's none.
func (t *CManagerTable) slot(namespace string) *CManagerSlot {
	t.Lock()
	defer t.Unlock()
	return t.slots[namespace]
}
'''))
good("Z2-table-access-pos", (R, "	if !ok {\n		return false\n	}\n	slot.Access(f)\n	return true\n", "	if ok {\n		slot.Access(f)\n	}\n	return ok\n"))
good("Z2-addslot", (R, "FUNC func (t *CManagerTable) AddSlot(", '''
func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
	valid := cms != nil && cms.cManager != nil
	if !valid {
		return false
	}

	t.Lock()
	_, exists := t.slots[namespace]
	if !exists {
		t.slots[namespace] = cms
	}
	t.Unlock()
	return !exists
}
'''))
good("Z2-namespaces", (R, "	namespaces := make([]string, 0, len(t.slots))\n	for namespace := range t.slots {\n		namespaces = append(namespaces, namespace)\n	}\n\n	return namespaces", "	i := 0\n	namespaces := make([]string, len(t.slots))\n	for namespace := range t.slots {\n		namespaces[i] = namespace\n		i++\n	}\n	return namespaces"))
good("Z2-newserver", (R, "	slots := make(map[string]*CManagerSlot)\n	table := CManagerTable{slots: slots}\n\n	return &KMeansServer{\n		addr:                       addr,\n		Table:                      &table,\n		CentroidManagerFactoryFunc: f,\n	}", "	s := new(KMeansServer)\n	s.addr = addr\n	s.Table = &CManagerTable{}\n	s.Table.Reset()\n	s.CentroidManagerFactoryFunc = f\n	return s"))
good("Z2-listen-track", (R, '''	serve := func(cxn net.Conn) {
		defer cxn.Close()

		mu.Lock()
		if stopped {
			mu.Unlock()
			return
		}
		conns[cxn] = true
		mu.Unlock()

		handler.ServeConn(cxn)

		mu.Lock()
		delete(conns, cxn)
		mu.Unlock()
	}
''', '''	track := func(cxn net.Conn) bool {
		mu.Lock()
		defer mu.Unlock()
		if !stopped {
			conns[cxn] = true
		}
		return !stopped
	}
	untrack := func(cxn net.Conn) {
		mu.Lock()
		defer mu.Unlock()
		delete(conns, cxn)
	}

	serve := func(cxn net.Conn) {
		defer cxn.Close()
		if !track(cxn) {
			return
		}
		defer untrack(cxn)
		handler.ServeConn(cxn)
	}
'''))
good("Z2-listen-loop", (R, "			if err != nil {\n				break\n			}\n			go serve(cxn)\n", "			if err != nil {\n				return\n			}\n			go func(conn net.Conn) {\n				serve(conn)\n			}(cxn)\n"))
good("Z2-client-ctor", (R, "		CentroidFactory: func(vec []float64) *Centroid {\n			centroid, _ := centroid.NewCentroid(centroid.NewCentroidArgs{\n				InitVec:       vec,\n				InitCap:       10,\n				KNNSearchFunc: searchutils.KNNCos,\n				KFNSearchFunc: searchutils.KFNCos,\n			})\n			return &centroid\n		},\n	}\n}", '''		CentroidFactory: defaultCentroid,
	}
}

func defaultCentroid(vec []float64) *Centroid {
	args := centroid.NewCentroidArgs{
		InitVec:       vec,
		InitCap:       10,
		KNNSearchFunc: searchutils.KNNCos,
		KFNSearchFunc: searchutils.KFNCos,
	}
	c, _ := centroid.NewCentroid(args)
	return &c
}'''))
good("Z2-client-ctor-new", (R, "	if err == nil {\n		var e error\n		err = &e\n	}\n", "	if err == nil {\n		err = new(error)\n	}\n"))

# --- server
good("Z2-s-nserr", (S, "FUNC func (s *KMeansServer) handleNamespaceErr(", '''
func (s *KMeansServer) handleNamespaceErr(ns string, f func(*CentroidManager)) error {
	if s.Table.Access(ns, f) {
		return nil
	}
	return NamespaceErr{namespace: ns}
}
'''))
good("Z2-s-nserr-var", (S, "FUNC func (s *KMeansServer) handleNamespaceErr(", '''
func (s *KMeansServer) handleNamespaceErr(ns string, f func(*CentroidManager)) (err error) {
	if found := s.Table.Access(ns, f); !found {
		err = NamespaceErr{ns}
	}
	return
}
'''))
good("Z2-s-add", (S, "FUNC func (s *KMeansServer) AddDataPoint(", '''
func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
	add := func(cm *CentroidManager) {
		*resp = cm.AddDataPoint(args.DP)
	}
	if s.Table.Access(args.NameSpace, add) {
		return nil
	}
	// Namespace doesn't exist, create one + add dp there.
	cm := s.CentroidManagerFactoryFunc(args.DP.Vec)
	if ok := cm.AddDataPoint(args.DP); !ok {
		return nil
	}
	created := s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
	if created {
		*resp = true
	} else {
		s.Table.Access(args.NameSpace, add)
	}
	return nil
}
'''))
good("Z2-s-add-helper", (S, "	// Namespace doesn't exist, create one + add dp there.\n	if !lookupOK {\n		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)\n		if !centroidManager.AddDataPoint(args.DP) {\n			return nil\n		}\n		slot := CManagerSlot{cManager: centroidManager}\n		// Returns a false if the namespace was created by someone else in\n		// the meantime, in which case the dp belongs in that one.\n		if s.Table.AddSlot(args.NameSpace, &slot) {\n			*resp = true\n			return nil\n		}\n		s.Table.Access(args.NameSpace, add)\n	}\n	return nil\n}", '''	if lookupOK {
		return nil
	}
	accepted, created := s.createNamespace(args.NameSpace, args.DP)
	switch {
	case !accepted:
	case created:
		*resp = true
	default:
		s.Table.Access(args.NameSpace, add)
	}
	return nil
}

// createNamespace makes a new namespace which contains dp.
func (s *KMeansServer) createNamespace(namespace string, dp DataPoint) (accepted, created bool) {
	cm := s.CentroidManagerFactoryFunc(dp.Vec)
	accepted = cm.AddDataPoint(dp)
	if accepted {
		created = s.Table.AddSlot(namespace, &CManagerSlot{cManager: cm})
	}
	return accepted, created
}'''))
good("Z2-s-namespaces", (S, "	r := make([]string, 0, len(s.Table.slots))\n	for key := range s.Table.slots {\n		r = append(r, key)\n	}\n	*resp = r\n	return nil", "	var names []string\n	for name := range s.Table.slots {\n		names = append(names, name)\n	}\n	*resp = names\n	return nil"))
good("Z2-s-local-results", (S, "		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)\n", "		found := cm.KNNLookup(args.Vec, args.K, args.Drain)\n		*resp = found\n"), (S, "		*resp = cm.LenDP()\n", "		n := cm.LenDP()\n		*resp = n\n"))
good("Z2-s-noclosure", (S, "	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {\n		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)\n	})", "	lookup := func(cm *CentroidManager) {\n		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)\n	}\n	if err := s.handleNamespaceErr(args.NameSpace, lookup); err != nil {\n		return err\n	}\n	return nil"))
good("Z2-s-distributedp", (S, "FUNC func distributeDP(", '''
func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace string) bool {
	order := searchutils.KNNCos(dp.Vec, gen, len(addrs))
	for i := 0; i < len(order); i++ {
		addr := addrs[order[i]]
		if ok := KMeansClient(addr, namespace, nil).AddDataPoint(dp); ok {
			return true
		}
	}
	return false
}
'''))
good("Z2-s-distri-drain-helper", (S, '''	dps := make([]DataPoint, 0)

	// Not wrapping the code below with this because it locks the CentroidManager.
	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		// Nothing would take care of drained dps without any receivers.
		if len(args.AddrOptions) != 0 {
			dps = append(dps, cm.DrainOrdered(args.N)...)
		}
	})

	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
		return nsErr
	}

	// Fetch remote vecs. Done outside''', '''	dps, nsErr := s.drainForOthers(args)
	if nsErr != nil || len(dps) == 0 {
		return nsErr
	}

	// Fetch remote vecs. Done outside'''), (S, '''	dps := make([]DataPoint, 0)

	// Not wrapping the code below with this because it locks the CentroidManager.
	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		// Nothing would take care of drained dps without any receivers.
		if len(args.AddrOptions) != 0 {
			dps = append(dps, cm.DrainOrdered(args.N)...)
		}
	})

	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
		return nsErr
	}

	for _, dp := range dps {
		// Fetch''', '''	dps, nsErr := s.drainForOthers(args)
	if nsErr != nil || len(dps) == 0 {
		return nsErr
	}

	for _, dp := range dps {
		// Fetch'''), (S, "type DistribDPIArgs struct", '''// drainForOthers takes out datapoints, if there's anybody to give them to.
func (s *KMeansServer) drainForOthers(args DistribDPArgs) ([]DataPoint, error) {
	var dps []DataPoint
	err := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		if len(args.AddrOptions) == 0 {
			return
		}
		dps = cm.DrainOrdered(args.N)
	})
	return dps, err
}

type DistribDPIArgs struct'''))
good("Z2-s-distri-putback", (S, '''	addrs := rsl.intoAddrs()
	for _, dp := range dps {
		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
	}
''', '''	addrs := rsl.intoAddrs()
	for i := range dps {
		s.giveOrKeep(dps[i], rsl.intoVecGenerator(), addrs, args.NameSpace)
	}
'''), (S, '''		addrs := rsl.intoAddrs()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
''', '''		addrs := rsl.intoAddrs()
		s.giveOrKeep(dp, gen, addrs, args.NameSpace)
'''), (S, "type DistribDPIArgs struct", '''// giveOrKeep sends dp to another node, or puts it back so it isn't lost.
func (s *KMeansServer) giveOrKeep(dp DataPoint, gen vecGenerator, addrs []string, ns string) {
	if distributeDP(dp, gen, addrs, ns) {
		return
	}
	s.Table.Access(ns, func(cm *CentroidManager) { cm.AddDataPoint(dp) })
}

type DistribDPIArgs struct'''))
good("Z2-s-distri-collect-later", (S, "	rsl := rch.collect() // collect the chan.\n\n	addrs := rsl.intoAddrs()\n	for", "	rsl := rch.collect() // collect the chan.\n	addrs := rsl.intoAddrs()\n\n	for"), (S, "		gen := rsl.intoVecGenerator()\n\n		addrs := rsl.intoAddrs()\n		if !distributeDP(dp, gen, addrs, args.NameSpace) {", "		if !distributeDP(dp, rsl.intoVecGenerator(), rsl.intoAddrs(), args.NameSpace) {"))
good("Z2-s-near", (S, '''		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
		if args.Drain {
			*r = centroids
			return
		}
		// Not drained, so they're still used by cm; the response is encoded
		// without holding the lock and has to be a copy.
		for _, c := range centroids {
			dps := make([]DataPoint, len(c.DataPoints))
			copy(dps, c.DataPoints)
			*r = append(*r, &Centroid{DataPoints: dps})
		}
''', '''		centroids, ok := cm.NearestCentroids(args.Vec, args.N, args.Drain)
		if !ok {
			return
		}
		if !args.Drain {
			// Still used by cm.
			centroids = copyCentroids(centroids)
		}
		*r = centroids
'''), (S, "type NearestCentroidVecArgs struct", '''func copyCentroids(centroids []*Centroid) []*Centroid {
	res := make([]*Centroid, 0, len(centroids))
	for _, c := range centroids {
		dps := make([]DataPoint, len(c.DataPoints))
		copy(dps, c.DataPoints)
		res = append(res, &Centroid{DataPoints: dps})
	}
	return res
}

type NearestCentroidVecArgs struct'''))
good("Z2-s-nearvec", (S, "		centroids, _ := cm.NearestCentroids(args.Vec, 1, false)\n		if len(centroids) != 0 {\n			*r = centroids[0].Vec()\n		}\n", "		centroids, ok := cm.NearestCentroids(args.Vec, 1, false)\n		if !ok || len(centroids) == 0 {\n			return\n		}\n		nearest := centroids[0]\n		*r = nearest.Vec()\n"))
good("Z2-s-ranges", (S, "		cm.SplitCentroids(func(c *Centroid) bool {\n			return c.LenDP() > args.DPRangeMin && c.LenDP() < args.DPRangeMax\n		})", "		cm.SplitCentroids(args.inRange)"), (S, "		cm.MergeCentroids(func(c *Centroid) bool {\n			return c.LenDP() > args.DPRangeMin && c.LenDP() < args.DPRangeMax\n		})", "		cm.MergeCentroids(args.inRange)"), (S, "type MergeCentroidsArgs struct", '''// inRange checks if a centroid has between min and max dps.
func (a SplitCentroidsArgs) inRange(c *Centroid) bool {
	n := c.LenDP()
	return n > a.DPRangeMin && n < a.DPRangeMax
}

type MergeCentroidsArgs struct'''))
good("Z2-s-range-early", (S, "		cm.SplitCentroids(func(c *Centroid) bool {\n			return c.LenDP() > args.DPRangeMin && c.LenDP() < args.DPRangeMax\n		})", "		cm.SplitCentroids(func(c *Centroid) bool {\n			if n := c.LenDP(); n <= args.DPRangeMin || n >= args.DPRangeMax {\n				return false\n			}\n			return true\n		})"))
good("Z2-s-steal", (S, '''	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
		// Can be improved. One at a time for convenience + readability.
		centroids, cOK := client.NearestCentroids(localVec, 1, true)

		if !cOK || len(centroids) == 0 {
			break
		}

		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
			// @ unsafe, this is assuming cm has similar properties as centroids
			// @ (such as KNNSearchfunc, etc).
			cm.Centroids = append(cm.Centroids, centroids...)
			r.TransferredN += centroids[0].LenDP()
		})
	}
''', '''	for clientErr == nil && r.TransferredN < args.TransferDPLimit {
		centroids, ok := client.NearestCentroids(localVec, 1, true)
		if !ok {
			break
		}
		if len(centroids) == 0 {
			break
		}
		stolen := 0
		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
			stolen = centroids[0].LenDP()
			cm.Centroids = append(cm.Centroids, centroids...)
		})
		r.TransferredN += stolen
	}
'''))
good("Z2-s-steal-vec-helper", (S, '''	var localVec []float64
	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
		localVec = cm.Vec()
	})

	var clientErr error
''', '''	localVec := s.localVec(args.NameSpace)

	var clientErr error
'''), (S, "// MetaResp is metadata", '''func (s *KMeansServer) localVec(ns string) (vec []float64) {
	s.Table.Access(ns, func(cm *CentroidManager) {
		vec = cm.Vec()
	})
	return vec
}

// MetaResp is metadata'''))
good("Z2-s-steal-ok", (S, "	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		cm.MoveVector()\n	})\n\n	r.OK = clientErr == nil\n	return nil", "	r.OK = clientErr == nil\n	s.Table.Access(args.NameSpace, func(cm *CentroidManager) { cm.MoveVector() })\n	return nil"))
good("Z2-s-meta", (S, "	centroids := make(map[string]int, len(namespaces))\n	dps := make(map[string]int, len(namespaces))\n\n	for _, ns := range namespaces {\n		s.Table.Access(ns, func(cm *CentroidManager) {\n			centroids[ns] = len(cm.Centroids)\n			dps[ns] = cm.LenDP()\n		})\n	}\n\n	(*resp).Centroids = centroids\n	(*resp).DPs = dps\n", "	resp.Centroids = make(map[string]int, len(namespaces))\n	resp.DPs = make(map[string]int, len(namespaces))\n	for _, ns := range namespaces {\n		s.Table.Access(ns, func(cm *CentroidManager) {\n			resp.Centroids[ns] = len(cm.Centroids)\n			resp.DPs[ns] = cm.LenDP()\n		})\n	}\n"))
good("Z2-s-meta-vars", (S, "			centroids[ns] = len(cm.Centroids)\n			dps[ns] = cm.LenDP()\n", "			nCentroids, nDPs := len(cm.Centroids), cm.LenDP()\n			centroids[ns] = nCentroids\n			dps[ns] = nDPs\n"), (S, "	(*resp).Centroids = centroids\n	(*resp).DPs = dps\n", "	*resp = MetaResp{Centroids: centroids, DPs: dps}\n"))
good("Z2-su-gen", (SU, "		if i >= len(*f) {\n			return nil, false\n		}\n		i++\n		return (*f)[i-1].vec, true", "		if i < len(*f) {\n			res := (*f)[i]\n			i++\n			return res.vec, true\n		}\n		return nil, false"))
good("Z2-su-collect", (SU, "	for i := 0; i < f.chlen; i++ {\n		data := <-f.ch\n		if data.ok {\n			r = append(r, data)\n		}\n	}\n	return &r", "	for remaining := f.chlen; remaining > 0; remaining-- {\n		data := <-f.ch\n		if !data.ok {\n			continue\n		}\n		r = append(r, data)\n	}\n	return &r"))
good("Z2-su-fetch", (SU, "	ch := make(chan fetchVecsRes, len(addrs))\n	for _, addr := range addrs {\n		go func(addr string) {\n			vec, ok := fetchFunc(addr)\n			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}\n		}(addr)\n	}\n	return &fetchVecsChan{ch: ch, chlen: len(addrs)}", "	n := len(addrs)\n	res := &fetchVecsChan{ch: make(chan fetchVecsRes, n), chlen: n}\n	for i := range addrs {\n		addr := addrs[i]\n		go func() {\n			r := fetchVecsRes{addr: addr}\n			r.vec, r.ok = fetchFunc(addr)\n			res.ch <- r\n		}()\n	}\n	return res"))
good("Z2-su-gen-pop", (SU, "	i := 0\n	return func() ([]float64, bool) {\n		if i >= len(*f) {\n			return nil, false\n		}\n		i++\n		return (*f)[i-1].vec, true\n	}", "	index := -1\n	return func() ([]float64, bool) {\n		index++\n		if index >= len(*f) {\n			index = len(*f)\n			return nil, false\n		}\n		return (*f)[index].vec, true\n	}"))

# --- client
good("Z2-cl-call", (CL, "FUNC func (c *kmeansClient) client(", '''
func (c *kmeansClient) client(taskF func(*rpc.Client)) {
	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err == nil {
		defer client.Close()
		taskF(client)
		return
	}
	*c.err = err
}
'''))
good("Z2-cl-call-helper", (CL, "FUNC func (c *kmeansClient) Vec(", '''
func (c *kmeansClient) Vec() (resp []float64) {
	c.call("Vec", c.namespace, &resp)
	return
}

// call does a single call.
func (c *kmeansClient) call(method string, args, resp interface{}) {
	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer."+method, args, resp)
	})
}
'''))
good("Z2-cl-args-out", (CL, "	c.client(func(rc *rpc.Client) {\n		args := DrainArgs{NameSpace: c.namespace, N: n}\n		*c.err = rc.Call(\"KMeansServer.DrainOrdered\", args, &resp)\n	})", "	args := DrainArgs{\n		NameSpace: c.namespace,\n		N:         n,\n	}\n	c.client(func(rc *rpc.Client) {\n		err := rc.Call(\"KMeansServer.DrainOrdered\", args, &resp)\n		*c.err = err\n	})"))
good("Z2-cl-near-filter", (CL, '''	// Remove nil/empty(no dps) centroids.
	for i := len(resp) - 1; i >= 0; i-- { // Backwards for removal safety.
		if resp[i] == nil || resp[i].LenDP() == 0 {
			resp = append(resp[:i], resp[i+1:]...)
		}
	}
''', '''	// Remove nil/empty(no dps) centroids.
	used := make([]*Centroid, 0, len(resp))
	for _, centroid := range resp {
		if centroid != nil && centroid.LenDP() > 0 {
			used = append(used, centroid)
		}
	}
	resp = used
'''))
good("Z2-cl-near-one-loop", (CL, '''	if resp == nil || len(resp) == 0 {
		return nil, false
	}

	// Remove nil/empty(no dps) centroids.
	for i := len(resp) - 1; i >= 0; i-- { // Backwards for removal safety.
		if resp[i] == nil || resp[i].LenDP() == 0 {
			resp = append(resp[:i], resp[i+1:]...)
		}
	}
''', '''	if len(resp) == 0 {
		return nil, false
	}
	res := make([]*Centroid, 0, len(resp))
'''), (CL, '''	for i := 0; i < len(resp); i++ {
		dps := resp[i].DataPoints
		// No empty check since empty Centroids were removed above.
		newCentroid := c.CentroidFactory(dps[0].Vec)
		newCentroid.DataPoints = dps
		newCentroid.MoveVector()
		resp[i] = newCentroid
	}

	return resp, true
''', '''	for _, received := range resp {
		if received == nil || len(received.DataPoints) == 0 {
			continue
		}
		dps := received.DataPoints
		centroid := c.CentroidFactory(dps[0].Vec)
		centroid.DataPoints = dps
		centroid.MoveVector()
		res = append(res, centroid)
	}

	return res, true
'''))
good("Z2-cl-near-helper", (CL, '''		dps := resp[i].DataPoints
		// No empty check since empty Centroids were removed above.
		newCentroid := c.CentroidFactory(dps[0].Vec)
		newCentroid.DataPoints = dps
		newCentroid.MoveVector()
		resp[i] = newCentroid
''', '''		resp[i] = c.revive(resp[i].DataPoints)
'''), (CL, "	return n, ok\n}\n", '''	return n, ok
}

// revive makes a centroid of what was received.
func (c *kmeansClient) revive(dps []DataPoint) *Centroid {
	centroid := c.CentroidFactory(dps[0].Vec)
	centroid.DataPoints = dps
	centroid.MoveVector()
	return centroid
}
'''))
good("Z2-cl-steal", (CL, "		resp := StealCentroidsResp{}\n		*c.err = rc.Call(\"KMeansServer.StealCentroid\", args, &resp)\n		n = resp.TransferredN\n		ok = resp.OK\n	})\n	return n, ok", "		*c.err = rc.Call(\"KMeansServer.StealCentroid\", args, &resp)\n	})\n	return resp.TransferredN, resp.OK"), (CL, "	var n int\n	var ok bool\n	c.client(", "	var resp StealCentroidsResp\n	c.client("))

# --- nodes, dps
good("Z2-n-best", (N, "FUNC func bestFitNodes(", '''
func bestFitNodes(args BestFitNodesArgs, fetcher func() *fetchVecsChan) []Addr {
	rsp := fetcher().collect()
	addrs := rsp.intoAddrs() // Correlate order with the generator.
	indexes := args.KNNSearchFunc(args.Vec, rsp.intoVecGenerator(), len(addrs))

	res := make([]Addr, len(indexes))
	for i, index := range indexes {
		res[i] = addrs[index]
	}
	return res
}
'''))
good("Z2-n-best-direct", (N, "FUNC func BestFitNodesFast(", '''
func BestFitNodesFast(args BestFitNodesArgs) []Addr {
	fetch := func() *fetchVecsChan {
		return fetchVecsFast(args.AddrOpts, args.Namespace)
	}
	return bestFitNodes(args, fetch)
}
'''), (N, "	fch := fetcher()\n	rsp := fch.collect()\n", "	rsp := fetcher().collect()\n"))
good("Z2-n-best-chan", (N, "func bestFitNodes(args BestFitNodesArgs, fetcher func() *fetchVecsChan) []Addr {", "func bestFitNodes(args BestFitNodesArgs, fch *fetchVecsChan) []Addr {"), (N, "	fch := fetcher()\n", ""), (N, "	return bestFitNodes(args, func() *fetchVecsChan {\n		return fetchVecsFast(args.AddrOpts, args.Namespace)\n	})", "	return bestFitNodes(args, fetchVecsFast(args.AddrOpts, args.Namespace))"), (N, "	return bestFitNodes(args, func() *fetchVecsChan {\n		return fetchVecsAccurate(args.AddrOpts, args.Namespace, args.Vec)\n	})", "	return bestFitNodes(args, fetchVecsAccurate(args.AddrOpts, args.Namespace, args.Vec))"))
good("Z2-nv-fetch", (NV, "		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()\n		return vec, err == nil && vec != nil", "		client := rpc.KMeansClient(addr.ToStr(), namespace, &err)\n		vec := client.Vec()\n		if err != nil || vec == nil {\n			return vec, false\n		}\n		return vec, true"))
good("Z2-nv-addrs", (NV, "	res := make([]Addr, len(*f))\n	for i, r := range *f {\n		res[i] = r.addr\n	}\n	return res", "	res := make([]Addr, 0, len(*f))\n	for _, r := range *f {\n		res = append(res, r.addr)\n	}\n	return res"))
good("Z2-d-shuffle", (DD, "	res := make([]Addr, len(addrs))\n	copy(res, addrs)\n\n	for i := 0; i < len(addrs); i++ {\n		rand.Seed(time.Now().UnixNano())\n		j := rand.Intn(len(addrs))\n		res[i], res[j] = res[j], res[i]\n	}\n	return res", "	shuffled := append(make([]Addr, 0, len(addrs)), addrs...)\n	rand.Seed(time.Now().UnixNano())\n	for i := range shuffled {\n		j := rand.Intn(len(shuffled))\n		shuffled[i], shuffled[j] = shuffled[j], shuffled[i]\n	}\n	return shuffled"))
good("Z2-d-shuffle-std", (DD, "	for i := 0; i < len(addrs); i++ {\n		rand.Seed(time.Now().UnixNano())\n		j := rand.Intn(len(addrs))\n		res[i], res[j] = res[j], res[i]\n	}\n", "	rand.Seed(time.Now().UnixNano())\n	rand.Shuffle(len(res), func(i, j int) {\n		res[i], res[j] = res[j], res[i]\n	})\n"))
good("Z2-g-get", (GD, "FUNC func getDataPoints(", '''
func getDataPoints(args getDataPointsArgs) []DataPoint {
	res := make([]DataPoint, 0)
	for i := 0; i < len(args.addrOpts); i++ {
		missing := args.n - len(res)
		addr := args.addrOpts[i].ToStr()
		found := rpc.KMeansClient(addr, args.namespace, nil).KNNLookup(args.queryVec, missing, args.drain)
		res = append(res, found...)
		if len(res) >= args.n {
			return res
		}
	}
	return res
}
'''))
good("Z2-g-get-remaining", (GD, "FUNC func getDataPoints(", '''
func getDataPoints(args getDataPointsArgs) []DataPoint {
	res := make([]DataPoint, 0)
	remaining := args.n
	for _, addr := range args.addrOpts {
		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
		dps := client.KNNLookup(args.queryVec, remaining, args.drain)
		res = append(res, dps...)
		remaining -= len(dps)
		if remaining <= 0 {
			break
		}
	}
	return res
}
'''))
good("Z2-p-put", (PD, "FUNC func putDataPoint(", '''
func putDataPoint(addrOpt []Addr, namespace string, dp DataPoint) (ok bool) {
	for i := 0; i < len(addrOpt) && !ok; i++ {
		client := rpc.KMeansClient(addrOpt[i].ToStr(), namespace, nil)
		ok = client.AddDataPoint(dp)
	}
	return ok
}
'''))
good("Z2-p-put-method", (PD, "	addrs := shuffleAddrs(args.AddrOptions)\n	return putDataPoint(addrs, args.Namespace, args.DataPoint)", "	return args.putInto(shuffleAddrs(args.AddrOptions))"), (PD, "	addrs := nodes.BestFitNodesFast(args.toBestFitNodesArgs())\n	return putDataPoint(addrs, args.Namespace, args.DataPoint)", "	return args.putInto(nodes.BestFitNodesFast(args.toBestFitNodesArgs()))"), (PD, "	addrs := nodes.BestFitNodesAccurate(args.toBestFitNodesArgs())\n	return putDataPoint(addrs, args.Namespace, args.DataPoint)", "	return args.putInto(nodes.BestFitNodesAccurate(args.toBestFitNodesArgs()))"), (PD, "func putDataPoint(addrOpt []Addr, namespace string, dp DataPoint) bool {\n	for _, addr := range addrOpt {\n		client := rpc.KMeansClient(addr.ToStr(), namespace, nil)\n		ok := client.AddDataPoint(dp)\n", "func (a *PutDataPointArgs) putInto(addrs []Addr) bool {\n	for _, addr := range addrs {\n		client := rpc.KMeansClient(addr.ToStr(), a.Namespace, nil)\n		ok := client.AddDataPoint(a.DataPoint)\n"))

# --- eventloop
good("Z2-el-step", (EL, "FUNC func elStep(", '''
func elStep(cfg *EventLoopConfig, task func(*EventLoopConfig)) {
	stopped := cfg.internal.isStopped
	if stopped() {
		return
	}
	time.Sleep(cfg.TimeoutStep)
	if !stopped() {
		task(cfg)
	}
}
'''))
good("Z2-el-tasks", (EL, '''			elStep(cfg, eltMeta)

			elStep(cfg, eltExpire)
			elStep(cfg, eltMemTrim)

			elStep(cfg, eltMergeCentroids)
			elStep(cfg, eltSplitCentroids)

			elStep(cfg, eltDistributeDataPointsInternal)
			elStep(cfg, eltDistributeDataPointsFast)
			elStep(cfg, eltDistributeDataPointsAccurate)

			elStep(cfg, eltLoadBalancing)
''', '''			runTasks(cfg)
'''), (EL, "func EventLoop(", '''func runTasks(cfg *EventLoopConfig) {
	elStep(cfg, eltMeta)

	elStep(cfg, eltExpire)
	elStep(cfg, eltMemTrim)

	elStep(cfg, eltMergeCentroids)
	elStep(cfg, eltSplitCentroids)

	elStep(cfg, eltDistributeDataPointsInternal)
	elStep(cfg, eltDistributeDataPointsFast)
	elStep(cfg, eltDistributeDataPointsAccurate)

	elStep(cfg, eltLoadBalancing)
}

func EventLoop('''))
good("Z2-el-iter", (EL, "			cfg.internal.iter++\n			if cfg.internal.iter > 1000 {\n				cfg.internal.iter = 0\n			}\n", "			cfg.internal.next()\n"), (EC, "func (i *eventLoopInternal) isStopped() bool {", "func (i *eventLoopInternal) next() {\n	i.iter++\n	if i.iter > 1000 {\n		i.iter = 0\n	}\n}\n\nfunc (i *eventLoopInternal) isStopped() bool {"))
good("Z2-el-iter-mod", (EL, "			cfg.internal.iter++\n			if cfg.internal.iter > 1000 {\n				cfg.internal.iter = 0\n			}\n", "			cfg.internal.iter = (cfg.internal.iter + 1) % 1001\n"))
good("Z2-el-stop", (EL, "	return func() {\n		atomic.StoreInt32(&cfg.internal.stopped, 1)\n	}", "	return cfg.internal.stop"), (EL, '	"sync/atomic"\n', ''), (EC, "func (i *eventLoopInternal) isStopped() bool {", "func (i *eventLoopInternal) stop() {\n	atomic.StoreInt32(&i.stopped, 1)\n}\n\nfunc (i *eventLoopInternal) isStopped() bool {"))
good("Z2-el-run", (EL, "		for !cfg.internal.isStopped() {\n			time.Sleep(cfg.TimeoutLoop)\n", "		for {\n			if cfg.internal.isStopped() {\n				return\n			}\n			time.Sleep(cfg.TimeoutLoop)\n"))
good("Z2-el-skip", (ET, "	if interval <= 1000 && cfg.internal.iter%interval == 0 {\n		task()\n	}", "	if interval > 1000 {\n		return\n	}\n	if cfg.internal.iter%interval != 0 {\n		return\n	}\n	task()"))
good("Z2-el-table", (ET, "	table := addrNamespaceTable{}\n	for _, addr := range cfg.RemoteAddrs {\n		namespaces := rpc.KMeansClient(addr.ToStr(), \"\", nil).Namespaces()\n		for _, namespace := range namespaces {\n			table.addEntry(addr, namespace)\n		}\n	}\n	task(table)", "	task(namespaceTable(cfg.RemoteAddrs))"), (ET, "func withLocalAddrNamespaces(", '''// namespaceTable asks all addrs for their namespaces.
func namespaceTable(addrs []Addr) addrNamespaceTable {
	var table addrNamespaceTable
	for _, addr := range addrs {
		client := rpc.KMeansClient(addr.ToStr(), "", nil)
		for _, namespace := range client.Namespaces() {
			table.addEntry(addr, namespace)
		}
	}
	return table
}

func withLocalAddrNamespaces('''))
good("Z2-el-addentry", (EU, "	slice, ok := t.items[namespace]\n	if !ok {\n		slice = make([]Addr, 0, 5)\n	}\n\n	slice = append(slice, addr)\n	t.items[namespace] = slice\n", "	t.items[namespace] = append(t.items[namespace], addr)\n"))
good("Z2-el-strs", (ET, '''				addrs := make([]string, len(table.items[namespace]))
				for i, addr := range table.items[namespace] {
					addrs[i] = addr.ToStr()
				}
				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				n := cfg.DistributeDataPointsFastN
				client.DistributeDataPointsFast(addrs, n)
''', '''				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				client.DistributeDataPointsFast(table.addrStrs(namespace), cfg.DistributeDataPointsFastN)
'''), (ET, '''				addrs := make([]string, len(table.items[namespace]))
				for i, addr := range table.items[namespace] {
					addrs[i] = addr.ToStr()
				}
				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				n := cfg.DistributeDataPointsAccurateN
				client.DistributeDataPointsAccurate(addrs, n)
''', '''				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				client.DistributeDataPointsAccurate(table.addrStrs(namespace), cfg.DistributeDataPointsAccurateN)
'''), (EU, "func (t *addrNamespaceTable) namespaces(", '''func (t *addrNamespaceTable) addrStrs(namespace string) []string {
	var strs []string
	for _, addr := range t.addrsWithNamespace(namespace) {
		strs = append(strs, addr.ToStr())
	}
	return strs
}

func (t *addrNamespaceTable) namespaces('''))
good("Z2-el-lens", (EU, '''			_, castOK := err.(netrpc.ServerError)
			ok := err == nil || castOK
			ch <- nodeDPLen{addr, lenDP, ok}
''', '''			ch <- nodeDPLen{addr: addr, DPLen: lenDP, ok: answered(err)}
'''), (EU, "	type nodeDPLen struct {", "	// answered checks that the node itself gave an answer.\n	answered := func(err error) bool {\n		if err == nil {\n			return true\n		}\n		_, ok := err.(netrpc.ServerError)\n		return ok\n	}\n	type nodeDPLen struct {"))
good("Z2-el-lens-collect", (EU, "	res := make(map[Addr]int, len(addrs))\n	for i := 0; i < len(addrs); i++ {\n		r := <-ch\n		if r.ok {\n			res[r.addr] = r.DPLen\n		}\n	}\n	return res", "	res := make(map[Addr]int)\n	for range addrs {\n		r := <-ch\n		if !r.ok {\n			continue\n		}\n		res[r.addr] = r.DPLen\n	}\n	return res"))
good("Z2-el-balance", (ET, '''				dpTotal := 0
				for _, dpLen := range addrsLens {
					dpTotal += dpLen
				}
				dpMean := dpTotal / len(addrsLens)
''', '''				dpMean := meanLen(addrsLens)
'''), (ET, "func eltMeta(", '''func meanLen(lens map[Addr]int) int {
	total := 0
	for _, n := range lens {
		total += n
	}
	return total / len(lens)
}

func eltMeta('''))
good("Z2-el-balance-conds", (ET, '''					if local.Comp(other) || addrsLens[local] > dpMean {
						continue
					}
''', '''					if local.Comp(other) {
						continue
					}
					localLen := addrsLens[local]
					if localLen > dpMean {
						continue
					}
'''), (ET, "					transferDPN := (dpMean - addrsLens[local]) / len(cfg.RemoteAddrs)\n", "					missing := dpMean - localLen\n					transferDPN := missing / len(cfg.RemoteAddrs) / 3\n"), (ET, "					transferDPN /= 3\n", ""), (ET, "					addrsLens[local] = addrsLens[local] + n\n					addrsLens[other] = addrsLens[other] - n\n", "					addrsLens[local] += n\n					addrsLens[other] -= n\n"))
good("Z2-el-balance-fn", (ET, '''			for _, ns := range table.namespaces() {
				addrs := table.addrsWithNamespace(ns)
				addrsLens := fetchRemoteLenDPs(addrs, ns)

				if len(addrsLens) == 0 { // guard 0 div error.
					continue
				}
''', '''			for _, ns := range table.namespaces() {
				addrs := table.addrsWithNamespace(ns)
				addrsLens := fetchRemoteLenDPs(addrs, ns)
				answered := len(addrsLens)
				if answered < 1 {
					continue
				}
'''), (ET, "dpMean := dpTotal / len(addrsLens)", "dpMean := dpTotal / answered"))
good("Z2-el-meta", (ET, '''		pullFrom := make([]Addr, 0, len(cfg.RemoteAddrs))

		if cfg.LogLocalOnly {
			pullFrom = append(pullFrom, cfg.LocalAddr)
		} else {
			pullFrom = append(pullFrom, cfg.RemoteAddrs...)
		}
''', '''		pullFrom := cfg.RemoteAddrs
		if cfg.LogLocalOnly {
			pullFrom = []Addr{cfg.LocalAddr}
		}
'''))
good("Z2-el-clamp", (EC, '''	for _, v := range items {
		if *v < min {
			*v = min
		}
		if *v > max {
			*v = max
		}
	}
''', '''	for i := range items {
		clampInt(items[i], min, max)
	}
'''), (EC, "type eventLoopInternal struct", '''func clampInt(v *int, min, max int) {
	switch {
	case *v < min:
		*v = min
	case *v > max:
		*v = max
	}
}

type eventLoopInternal struct'''))
good("Z2-el-expire-var", (ET, "			go rpc.KMeansClient(addr.ToStr(), namespace, nil).Expire()\n", "			client := rpc.KMeansClient(addr.ToStr(), namespace, nil)\n			go client.Expire()\n"), (ET, "			go rpc.KMeansClient(addr.ToStr(), namespace, nil).MemTrim()\n", "			go func() {\n				rpc.KMeansClient(addr.ToStr(), namespace, nil).MemTrim()\n			}()\n"))

# --- api
good("Z2-a-put-if", (H, '''	putOk := false
	switch opts.Accurate {
	case true:
		putOk = dps.PutDataPointAccurate(args)
	case false:
		putOk = dps.PutDataPointFast(args)
	}

	// Will be false if none of the nodes are initialised.
	if !putOk {
		putOk = dps.PutDataPointRand(args)
	}

	// reply.
	switch putOk {
	case true:
		w.WriteHeader(http.StatusOK)
	case false:
		w.WriteHeader(http.StatusInternalServerError)
	}
''', '''	put := dps.PutDataPointFast
	if opts.Accurate {
		put = dps.PutDataPointAccurate
	}
	if put(args) || dps.PutDataPointRand(args) {
		w.WriteHeader(http.StatusOK)
		return
	}
	w.WriteHeader(http.StatusInternalServerError)
'''))
good("Z2-a-put-status", (H, '''	switch putOk {
	case true:
		w.WriteHeader(http.StatusOK)
	case false:
		w.WriteHeader(http.StatusInternalServerError)
	}
''', '''	status := http.StatusOK
	if !putOk {
		status = http.StatusInternalServerError
	}
	w.WriteHeader(status)
'''))
good("Z2-a-query", (H, '''	var resp []common.DataPoint
	switch opts.Accurate {
	case true:
		resp = dps.GetDataPointsAccurate(args)
	case false:
		resp = dps.GetDataPointsFast(args)
	}

	// reply.
	var respConv []DP
	if resp != nil {
		respConv = DataPointsToDPs(resp)
	}

	b, _ := json.Marshal(respConv)
''', '''	var found []common.DataPoint
	if opts.Accurate {
		found = dps.GetDataPointsAccurate(args)
	} else {
		found = dps.GetDataPointsFast(args)
	}

	b, _ := json.Marshal(DataPointsToDPs(found))
'''))
good("Z2-a-types", (H, '''	opts := struct {
		Namespace string    `json:"namespace"`
		Accurate  bool      `json:"accurate"`
		QueryVec  []float64 `json:"queryVec"`
		N         int       `json:"n"`
		Drain     bool      `json:"drain"`
	}{}

''', '''	var opts queryOptions
'''), (H, "func (h *handler) queryDataPoint(", '''type queryOptions struct {
	Namespace string    `json:"namespace"`
	Accurate  bool      `json:"accurate"`
	QueryVec  []float64 `json:"queryVec"`
	N         int       `json:"n"`
	Drain     bool      `json:"drain"`
}

func (h *handler) queryDataPoint('''))
good("Z2-a-unpack", (H, "	body, _ := ioutil.ReadAll(r.Body)\n	err := json.Unmarshal(body, targetOpt)\n	if err != nil {\n		w.WriteHeader(http.StatusBadRequest)\n		return false\n	}\n	return true", "	body, _ := ioutil.ReadAll(r.Body)\n	if err := json.Unmarshal(body, targetOpt); err == nil {\n		return true\n	}\n	w.WriteHeader(http.StatusBadRequest)\n	return false"))
good("Z2-a-routes", (H, '''	routes := map[string]func(http.ResponseWriter, *http.Request){
		"/api/dp/put":   h.putDataPoint,
		"/api/dp/query": h.queryDataPoint,
	}
	for k, v := range routes {
		http.Handle(k, http.HandlerFunc(v))
		fmt.Printf("route '%v' is up.\\n", k)
	}
''', '''	route := func(path string, f func(http.ResponseWriter, *http.Request)) {
		http.HandleFunc(path, f)
		fmt.Printf("route '%v' is up.\\n", path)
	}
	route("/api/dp/put", h.putDataPoint)
	route("/api/dp/query", h.queryDataPoint)
'''))
good("Z2-a-conv", (AC, '''	r := make([]DP, len(dps))
	for i, dp := range dps {
		r[i] = DP{
			Vec:           dp.Vec,
			Payload:       dp.Payload,
			Expires:       dp.Expires,
			ExpireEnabled: dp.ExpireEnabled,
		}
	}
	return r
''', '''	r := make([]DP, 0, len(dps))
	for _, dp := range dps {
		r = append(r, fromDataPoint(dp))
	}
	return r
'''), (AC, "func DataPointsToDPs(", '''func fromDataPoint(dp common.DataPoint) DP {
	return DP{
		Vec:           dp.Vec,
		Payload:       dp.Payload,
		Expires:       dp.Expires,
		ExpireEnabled: dp.ExpireEnabled,
	}
}

func DataPointsToDPs('''))
good("Z2-a-conv-fields", (AC, '''		r[i] = DP{
			Vec:           dp.Vec,
			Payload:       dp.Payload,
			Expires:       dp.Expires,
			ExpireEnabled: dp.ExpireEnabled,
		}
''', '''		r[i].Vec = dp.Vec
		r[i].Payload = dp.Payload
		r[i].Expires = dp.Expires
		r[i].ExpireEnabled = dp.ExpireEnabled
'''))
good("Z2-a-conv-type", (AC, '''		r[i] = DP{
			Vec:           dp.Vec,
			Payload:       dp.Payload,
			Expires:       dp.Expires,
			ExpireEnabled: dp.ExpireEnabled,
		}
''', '''		r[i] = DP(dp)
'''))
good("Z2-a-start", (A, '''	h := handler{RPCAddrs: cfg.RPCAddrs}
	h.setRoutes()

	s := http.Server{
		Addr:         cfg.Addr.ToStr(),
		ReadTimeout:  cfg.ReadTimeout,
		WriteTimeout: cfg.WriteTimeout,
	}

	return s.ListenAndServe()
''', '''	h := &handler{}
	h.RPCAddrs = cfg.RPCAddrs
	h.setRoutes()

	s := &http.Server{Addr: cfg.Addr.ToStr()}
	s.ReadTimeout = cfg.ReadTimeout
	s.WriteTimeout = cfg.WriteTimeout
	return s.ListenAndServe()
'''))

# --- search, vectors
good("Z2-k-bubble", (K, "FUNC func bubble(", '''
func bubble(insertee *resultItem, items []resultItem, ascending bool) {
	for i := range items {
		better := insertee.score > items[i].score
		if ascending {
			better = insertee.score < items[i].score
		}
		if better || !items[i].set {
			*insertee, items[i] = items[i], *insertee
		}
	}
}
'''))
good("Z2-k-indexes", (K, "	for i := 0; i < len(items); i++ {\n		if items[i].set {\n			res = append(res, items[i].index)\n		}\n	}\n	return res", "	for _, item := range items {\n		if !item.set {\n			continue\n		}\n		res = append(res, item.index)\n	}\n	return res"))
good("Z2-k-for", (K, '''	i := 0
	for {
		// Next vector.
		v, cont := args.VecPoolGenerator()
		if !cont {
			break
		}
		// Next score.
		score, err := args.DistFunc(args.TargetVec, v)
		if err != nil {
			i++
			continue
		}
''', '''	for i := 0; ; i++ {
		v, cont := args.VecPoolGenerator()
		if !cont {
			break
		}
		score, err := args.DistFunc(args.TargetVec, v)
		if err != nil {
			continue
		}
'''), (K, "			bubble(newSlot, res, false)\n		}\n		i++\n	}", "			bubble(newSlot, res, false)\n		}\n	}"))
good("Z2-k-better", (K, '''		if args.Ascending && score < similarity {
			bubble(newSlot, res, true)
		}
		if !args.Ascending && score > similarity {
			bubble(newSlot, res, false)
		}
''', '''		useful := score > similarity
		if args.Ascending {
			useful = score < similarity
		}
		if useful {
			bubble(newSlot, res, args.Ascending)
		}
'''))
good("Z2-k-prefab", (K, "FUNC func KNNCos(", '''
func KNNCos(targetVec []float64, vecPoolGenerator func() ([]float64, bool), k int) []int {
	return search(targetVec, vecPoolGenerator, k, false, mathutils.CosineSimilarity)
}

func search(target []float64, gen func() ([]float64, bool), k int, ascending bool,
	dist func(v1, v2 []float64) (float64, error)) []int {
	args := KNNBruteArgs{TargetVec: target, VecPoolGenerator: gen, K: k}
	args.Ascending = ascending
	args.DistFunc = dist
	return KNNBrute(args)
}
'''), (K, "FUNC func KFNCos(", '''
func KFNCos(targetVec []float64, vecPoolGenerator func() ([]float64, bool), k int) []int {
	return search(targetVec, vecPoolGenerator, k, true, mathutils.CosineSimilarity)
}
'''))
good("Z2-md-euc", (MD, "	var r float64\n	for i := 0; i < len(v1); i++ {\n		r += (v1[i] - v2[i]) * (v1[i] - v2[i])\n	}\n	return math.Sqrt(r), nil", "	sum := 0.0\n	for i, x := range v1 {\n		d := x - v2[i]\n		sum += d * d\n	}\n	return math.Sqrt(sum), nil"))
good("Z2-md-norm", (MD, "	var x float64\n	for i := 0; i < len(vec); i++ {\n		x += vec[i] * vec[i]\n	}\n	return math.Sqrt(x)", "	sum := 0.\n	for _, v := range vec {\n		sum += v * v\n	}\n	return math.Sqrt(sum)"))
good("Z2-md-cos", (MD, "	norm1, norm2 := norm(vec1), norm(vec2)\n	if norm1 == 0 || norm2 == 0 {\n		return 0, nil\n	}\n", "	norm1 := norm(vec1)\n	if norm1 == 0 {\n		return 0, nil\n	}\n	norm2 := norm(vec2)\n	if norm2 == 0 {\n		return 0, nil\n	}\n"))
good("Z2-md-dot", (MD, "	var dot float64\n	for i := 0; i < len(vec1); i++ {\n		dot += vec1[i] * vec2[i]\n	}\n	return dot / norm1 / norm2, nil", "	return dot(vec1, vec2) / norm1 / norm2, nil"), (MD, "func norm(vec []float64) float64 {", "func dot(a, b []float64) float64 {\n	var sum float64\n	for i := range a {\n		sum += a[i] * b[i]\n	}\n	return sum\n}\n\nfunc norm(vec []float64) float64 {"))
good("Z2-mv-mean", (MV, "FUNC func VecMean(", '''
func VecMean(generator func() ([]float64, bool)) ([]float64, bool) {
	first, cont := generator()
	if !cont {
		return first, false
	}
	sum := append([]float64{}, first...)
	count := 1
	for vec, cont := generator(); cont; vec, cont = generator() {
		if len(vec) != len(sum) {
			return sum, false
		}
		for i, x := range vec {
			sum[i] += x
		}
		count++
	}
	return VecDivScalar(sum, float64(count)), true
}
'''))
good("Z2-mv-add", (MV, "	for i := 0; i < len(a); i++ {\n		res[i] = a[i] + b[i]\n	}\n	return res, true", "	for i, x := range a {\n		res[i] = x + b[i]\n	}\n	return res, true"))
good("Z2-mv-sub", (MV, "	for i := 0; i < len(a); i++ {\n		res[i] = a[i] - b[i]\n	}\n	return res, true", "	copy(res, a)\n	for i := range b {\n		res[i] -= b[i]\n	}\n	return res, true"))
good("Z2-mv-apply", (MV, "	res := make([]float64, len(vec))\n	for i, v := range vec {\n		res[i] = v / scalar\n	}\n	return res", "	return apply(vec, func(v float64) float64 { return v / scalar })"), (MV, "	res := make([]float64, len(vec))\n	for i, v := range vec {\n		res[i] = v * scalar\n	}\n	return res", "	return apply(vec, func(v float64) float64 { return v * scalar })"), (MV, "func VecEq(", "func apply(vec []float64, f func(float64) float64) []float64 {\n	res := make([]float64, len(vec))\n	for i, v := range vec {\n		res[i] = f(v)\n	}\n	return res\n}\n\nfunc VecEq("))
good("Z2-mv-eq", (MV, "	for i := 0; i < len(v1); i++ {\n		if v1[i] != v2[i] {\n			return false\n		}\n	}\n	return true", "	equal := true\n	for i := range v1 {\n		equal = equal && v1[i] == v2[i]\n	}\n	return equal"))
good("Z2-dp-expired", ("pkg/kmeans/common/datapoint.go", "	return dp.ExpireEnabled && time.Now().After(dp.Expires)", "	if !dp.ExpireEnabled {\n		return false\n	}\n	return dp.Expires.Before(time.Now())"))
good("Z2-arb-uniform", (ARB, "	for _, status := range *s {\n		if status != sc {\n			return false\n		}\n	}\n	return true", "	for addr := range *s {\n		if (*s)[addr] != sc {\n			return false\n		}\n	}\n	return true"))
good("Z2-arb-uniform-flag", (ARB, "	for _, status := range *s {\n		if status != sc {\n			return false\n		}\n	}\n	return true", "	uniform := true\n	for _, status := range *s {\n		if status != sc {\n			uniform = false\n			break\n		}\n	}\n	return uniform"))
good("Z2-reset-helper", (R, "FUNC func NewKMeansServer(", '''
func NewKMeansServer(addr string, f CentroidManagerFactoryF) *KMeansServer {
	table := &CManagerTable{}
	table.clear()
	return &KMeansServer{
		addr:                       addr,
		Table:                      table,
		CentroidManagerFactoryFunc: f,
	}
}

// clear forgets all namespaces.
func (t *CManagerTable) clear() {
	t.slots = make(map[string]*CManagerSlot)
}
'''), (R, "FUNC func (t *CManagerTable) Reset(", '''
func (t *CManagerTable) Reset() {
	t.Lock()
	defer t.Unlock()
	t.clear()
}
'''))
