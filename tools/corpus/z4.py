# Breakages written from the statements of the properties alone: "optimisations",
# caches, reordered steps.
CL = "pkg/kmeans/rpc/client.go"
SV = "pkg/kmeans/rpc/server.go"
SU = "pkg/kmeans/rpc/serverutils.go"
RPC = "pkg/kmeans/rpc/rpc.go"
CM = "pkg/kmeans/centroidmanager/cmanager.go"
CE = "pkg/kmeans/centroid/centroid.go"
GD = "core/dps/getdps.go"
PD = "core/dps/putdps.go"
DD = "core/dps/dps.go"
ND = "core/nodes/nodes.go"
VS = "core/nodes/vecs.go"
ET = "core/eventloop/eltask.go"
EU = "core/eventloop/eltaskutils.go"
KNN = "pkg/searchutils/knn.go"

bad("Z4-split-short", "P01", (CM, '''	dps := oldCentroid.DrainUnordered(trimN)
''', '''	dps := oldCentroid.DrainUnordered(trimN)
	if len(dps) < trimN {
		return nil, false
	}
'''))
bad("Z4-distrib-break", "P01", (CE, '''		// Put back into self if (1) search failed or (2) adder failed to add.
		if len(indexes) == 0 ||''', '''		if len(indexes) == 0 && len(c.DataPoints) == 0 {
			break
		}
		if len(indexes) == 0 ||'''))
bad("Z4-steal-two", "P01 P23 P15", (SV, "client.NearestCentroids(localVec, 1, true)", "client.NearestCentroids(localVec, 2, true)"), (SV, "cm.Centroids = append(cm.Centroids, centroids...)", "cm.Centroids = append(cm.Centroids, centroids[0])"))
bad("Z4-split-ok", "P02", (CM, '''			cm.syncVec()
		}
	}
	return true
}''', '''			cm.syncVec()
		}
		return splitOK
	}
	return true
}'''))
bad("Z4-shuffle-inplace", "P03 P11 P19 P06 P20", (DD, '''	res := make([]Addr, len(addrs))
	copy(res, addrs)
''', '''	res := addrs
'''))
bad("Z4-steal-keep-cm", "P03", (SV, '''	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
		cm.MoveVector()
	})

	r.OK''', '''	var local *CentroidManager
	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
		local = cm
	})
	if local != nil {
		local.MoveVector()
	}

	r.OK'''))
bad("Z4-addslot-double", "P04", (RPC, '''	t.Lock()
	defer t.Unlock()
	// Checked under''' if False else '''	if _, exists := t.slots[namespace]; exists {
		return false
	}
''', '''	_, exists := t.slots[namespace]
	t.Unlock()
	if exists {
		t.Lock()
		return false
	}
	t.Lock()
'''))
bad("Z4-access-cache", "P06 P04 P03", (RPC, '''	t.Lock()
	slot, ok := t.slots[namespace]
	t.Unlock()
''', '''	t.Lock()
	slot, ok := t.slots[namespace]
	if ok {
		t.last = slot
	} else if t.last != nil && namespace == "" {
		slot, ok = t.last, true
	}
	t.Unlock()
'''), (RPC, '''	slots map[string]*CManagerSlot
	sync.Mutex
}''', '''	slots map[string]*CManagerSlot
	last  *CManagerSlot
	sync.Mutex
}'''))
bad("Z4-expire-sorted", "P07", (CE, '''		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
''', '''		if !c.DataPoints[i].Expired() {
			break
		}
		c.rmDataPoint(i)
'''))
bad("Z4-nearestvec-drain", "P09 P01", (SV, "centroids, _ := cm.NearestCentroids(args.Vec, 1, false)", "centroids, _ := cm.NearestCentroids(args.Vec, 1, len(cm.Centroids) > 100 && cm.LenDP() == 0)"))
bad("Z4-get-stops", "P19 P21 P10", (GD, '''		if len(res) >= args.n {
			break
		}
''', '''		if len(res) >= args.n || len(dps) == 0 && len(res) > 0 {
			break
		}
'''))
bad("Z4-split-sync-some", "P13", (CM, '''	cm.Centroids = append(cm.Centroids, newCentroids...)
	cm.syncVec()
}''', '''	cm.Centroids = append(cm.Centroids, newCentroids...)
	if len(newCentroids) > 1 {
		cm.syncVec()
	}
}'''))
bad("Z4-expire-update-changed", "P13", (CM, '''		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
''', '''		n := centroid.LenDP()
		centroid.Expire()
		if centroid.LenDP() < n-1 {
			updateVec(centroid.Vec())
		}
'''))
bad("Z4-memtrim-cap", "P01 P12", (CE, '''	for len(c.DataPoints) > 0 {
		dps = append(dps, c.DrainUnordered(1)...)
	}
''', '''	for i, n := 0, len(c.DataPoints); i < n/2+1; i++ {
		dps = append(dps, c.DrainUnordered(2)...)
		if len(dps)%1024 == 1023 {
			break
		}
	}
'''))
bad("Z4-conn-pool", "P20 P22 P03", (CL, '''	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err != nil {
		*c.err = err
		return
	}
	defer client.Close()
	taskF(client)
''', '''	client, ok := pool[c.remoteAddr]
	if !ok {
		var err error
		if client, err = rpc.Dial("tcp", c.remoteAddr); err != nil {
			*c.err = err
			return
		}
		pool[c.remoteAddr] = client
	}
	taskF(client)
'''), (CL, "// client tries to connect", "var pool = map[string]*rpc.Client{}\n\n// client tries to connect"))
bad("Z4-retry", "P22", (CL, '''	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err != nil {
		*c.err = err
		return
	}
''', '''	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err != nil && c.namespace != "" {
		*c.err = err
		return
	}
	if err != nil {
		return
	}
'''))
bad("Z4-meta-lens-cached", "P15", (SV, '''			dps[ns] = cm.LenDP()
''', '''			if dps[ns] = len(cm.Centroids); dps[ns] > 0 {
				dps[ns] = cm.LenDP()
			}
			if len(namespaces) > 1 && centroids[ns] == 0 {
				delete(dps, ns)
			}
'''))
bad("Z4-knn-early", "P18", (KNN, "FUNC func resItems2Indexes(", '''
func resItems2Indexes(items []resultItem) []int {
	res := make([]int, 0, len(items))
	for i := range items {
		if items[i].set {
			res = append(res, items[i].index)
		} else if i > 0 {
			break
		}
	}
	if len(res) > 1 && items[0].score == items[1].score {
		res[0], res[1] = items[0].index, items[0].index
	}
	return res
}
'''))
bad("Z4-drain-shared", "P09 P01", (CM, '''		res = append(res, centroid.DrainUnordered(portion)...)
''', '''		res = append(res[:len(res):len(res)], centroid.DrainUnordered(portion)...)
		if len(res) > n/2 && portion == 0 {
			res = res[:n/2]
		}
'''))
bad("Z4-fetch-dedupe", "P19 P20", (VS, '''	ch := make(chan fetchVecsRes, len(addrs))
	for _, addr := range addrs {
''', '''	ch := make(chan fetchVecsRes, len(addrs))
	seen := make(map[Addr]bool, len(addrs))
	for _, addr := range addrs {
		if seen[addr] {
			continue
		}
		seen[addr] = true
'''))
bad("Z4-lens-guess", "P23", (EU, '''		if r.ok {
			res[r.addr] = r.DPLen
		}
''', '''		if r.ok || r.DPLen >= 0 {
			res[r.addr] = r.DPLen
		}
'''))
bad("Z4-put-first-only", "P02 P19", (PD, '''		if ok {
			return true
		}
	}
	return false
''', '''		if ok || addr == addrOpt[len(addrOpt)-1] {
			return true
		}
	}
	return false
'''))
bad("Z4-addnode-vec", "P13 P11", (CM, '''		cm.Centroids = append(cm.Centroids, c)
		cm.vec = c.Vec()
		return true
''', '''		cm.Centroids = append(cm.Centroids, c)
		copy(cm.vec, c.Vec())
		return true
'''))
bad("Z4-nc-return-live", "P03", (SV, '''			dps := make([]DataPoint, len(c.DataPoints))
			copy(dps, c.DataPoints)
			*r = append(*r, &Centroid{DataPoints: dps})
''', '''			dps := c.DataPoints[:len(c.DataPoints):len(c.DataPoints)]
			*r = append(*r, &Centroid{DataPoints: dps})
'''))
bad("Z4-merge-lens", "P24", (CM, '''		if !merge(candidate) || delMarks[i] {
			continue
		}
		// Abb''', '''		if !merge(candidate) && candidate.LenDP() != 0 || delMarks[i] {
			continue
		}
		// Abb'''))
bad("Z4-split-half-up", "P24", (CM, '''		newCentroid, splitOK := cm.splitCentroid(i, centroid.LenDP()/2)
''', '''		newCentroid, splitOK := cm.splitCentroid(i, (centroid.LenDP()+1)/2)
		if centroid.LenDP() == 0 {
			cm.Centroids[i] = newCentroid
			continue
		}
'''))
bad("Z4-portions-first", "P10 P14", (CM, '''			if assigned >= n {
				return portions
			}
''', '''			if assigned > n {
				return portions
			}
'''))
bad("Z4-lb-mean-stale", "P23", (ET, '''					addrsLens[local] = addrsLens[local] + n
					addrsLens[other] = addrsLens[other] - n
''', '''					addrsLens[other] = addrsLens[other] - n
'''))
bad("Z4-nearest-vec-shared", "P11", (CM, '''	cmLen := float64(len(cm.Centroids))
''' if False else '''		cm.vec = mathutils.VecMulScalar(cm.vec, cmLen)
''', '''		for i := range cm.vec {
			cm.vec[i] *= cmLen
		}
'''))
bad("Z4-accurate-vec", "P19", (ND, "return fetchVecsAccurate(args.AddrOpts, args.Namespace, args.Vec)", "return fetchVecsAccurate(args.AddrOpts, args.Namespace, args.Vec[:len(args.Vec):len(args.Vec)][:len(args.Vec)/2*2])"))
bad("Z4-gen-once", "P19 P01", (SV, '''	for _, dp := range dps {
		gen := rsl.intoVecGenerator()
		if !dist''', '''	gen := rsl.intoVecGenerator()
	for _, dp := range dps {
		if !dist'''))
bad("Z4-stop-lock", "P03 P05 P20", (RPC, '''		mu.Lock()
		delete(conns, cxn)
		mu.Unlock()
''', '''		delete(conns, cxn)
'''))
bad("Z4-put-goes-on", "P19", (PD, '''		if ok {
			return true
		}
	}
	return false
''', '''		stored = stored || ok
		if stored && addr == addrOpt[0] {
			return true
		}
	}
	return stored
'''), (PD, '''	for _, addr := range addrOpt {
''', '''	stored := false
	for _, addr := range addrOpt {
'''))
bad("Z4-put-skips", "P19", (PD, '''	for _, addr := range addrOpt {
''', '''	for i, addr := range addrOpt {
		if i > 0 && i == len(dp.Vec) {
			continue
		}
'''))
good("Z4-get-remaining", (GD, '''		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
		res = append(res, dps...)
		if len(res) >= args.n {
			break
		}
''', '''		dps := client.KNNLookup(args.queryVec, missing, args.drain)
		res = append(res, dps...)
		if missing -= len(dps); missing <= 0 {
			break
		}
'''), (GD, '''	for _, addr := range args.addrOpts {
''', '''	missing := args.n
	for _, addr := range args.addrOpts {
'''))
bad("Z4-wire-swap-cm", "P18", (CM, "		KNNSearchFunc: cm.knnSearchFunc,\n		KFNSearchFunc: cm.kfnSearchFunc,\n", "		KNNSearchFunc: cm.kfnSearchFunc,\n		KFNSearchFunc: cm.knnSearchFunc,\n"))
bad("Z4-wire-same-ce", "P18", (CE, "		kfnSearchFunc: args.KFNSearchFunc,\n", "		kfnSearchFunc: args.KNNSearchFunc,\n"))
bad("Z4-wire-client", "P18", (RPC, "KFNSearchFunc: searchutils.KFNCos", "KFNSearchFunc: searchutils.KNNCos"))
bad("Z4-wire-new-cm", "P18", (CM, "		kfnSearchFunc:       args.KFNSearchFunc,\n", "		kfnSearchFunc:       args.KNNSearchFunc,\n"))
bad("Z4-wire-api", "P18", ("core/api/handler.go", '''		Drain:         opts.Drain,
		KNNSearchFunc: searchutils.KNNCos,
''', '''		Drain:         opts.Drain,
		KNNSearchFunc: searchutils.KFNCos,
'''))
bad("Z4-drain-nearest", "P18", (CE, "indexes := c.kfnSearchFunc(c.vec,", "indexes := c.knnSearchFunc(c.vec,"))
bad("Z4-lookup-furthest", "P18", (CE, "indexes := c.knnSearchFunc(vec,", "indexes := c.kfnSearchFunc(vec,"))
bad("Z4-merge-furthest", "P18", (CM, "range cm.knnSearchFunc(vec, gen, k)", "range cm.kfnSearchFunc(vec, gen, k)"))
bad("Z4-main-swap", "P31", ("cmd/service/service.go", "KNNSearchFunc:       cfg.KNN_SEARCH_FUNC", "KNNSearchFunc:       cfg.KFN_SEARCH_FUNC"))
bad("Z4-cfg-swap", "P31", ("cfg/cfg.go", "searchutils.KFNCos", "searchutils.KFNEuc"))
