CM = 'pkg/kmeans/centroidmanager/cmanager.go'
CE = 'pkg/kmeans/centroid/centroid.go'
RS = 'pkg/kmeans/rpc/server.go'
RC = 'pkg/kmeans/rpc/client.go'
DIST = '''		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}
'''
bad('P01-dist-ignored', 'P01', (CE, DIST, '''		if len(indexes) == 0 {
			c.AddDataPoint(data[j])
			continue
		}
		receivers[indexes[0]].AddDataPoint(data[j])
'''))
bad('P01-dist-nosearch', 'P01', (CE, DIST, '''		if len(indexes) == 0 {
			continue
		}
		if !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}
'''))
bad('P01-dist-stop', 'P01', (CE, DIST, '''		if len(indexes) == 0 {
			c.AddDataPoint(data[j])
			break
		}
		if !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}
'''))
bad('P01-dist-twice', 'P01', (CE, DIST, '''		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}
		if len(indexes) != 0 && len(receivers) == 1 {
			c.AddDataPoint(data[j])
		}
'''))
bad('P01-dist-wrong-index', 'P01', (CE, '''	for j := 0; j < len(data); j++ {
		i = 0 // Reset''', '''	for j := 0; j < len(data)-1; j++ {
		i = 0 // Reset'''))
good('P01-dist-helper', (CE, DIST, '''		taken := false
		if len(indexes) > 0 {
			taken = receivers[indexes[0]].AddDataPoint(data[j])
		}
		if !taken {
			c.AddDataPoint(data[j])
		}
'''))
good('P01-dist-range', (CE, '''	for j := 0; j < len(data); j++ {
		i = 0 // Reset generator.
		indexes := c.knnSearchFunc(data[j].Vec, generator, 1)
		// Put back into self if (1) search failed or (2) adder failed to add.
''' + DIST, '''	for _, dp := range data {
		i = 0 // Reset generator.
		indexes := c.knnSearchFunc(dp.Vec, generator, 1)
		if len(indexes) != 0 && receivers[indexes[0]].AddDataPoint(dp) {
			continue
		}
		c.AddDataPoint(dp)
'''))
bad('P01-cmemtrim-n', 'P01', (CE, '''	for len(c.DataPoints) > 0 {
		dps = append(dps, c.DrainUnordered(1)...)
	}
''', '''	for len(c.DataPoints) > 1 {
		dps = append(dps, c.DrainUnordered(1)...)
	}
'''))
bad('P01-cmemtrim-break', 'P01', (CE, '''		dps = append(dps, c.DrainUnordered(1)...)
	}
''', '''		next := c.DrainUnordered(1)
		if len(dps) != 0 && len(next) == 0 {
			break
		}
		dps = append(dps, next...)
		if len(dps) >= 1<<16 {
			dps = dps[1:]
		}
	}
'''))
good('P01-cmemtrim-copy', (CE, '''	dps := make([]common.DataPoint, 0)
	// Using''', '''	c.Expire()
	dps := make([]common.DataPoint, len(c.DataPoints))
	copy(dps, c.DataPoints)
	// Using'''), (CE, '''	for len(c.DataPoints) > 0 {
		dps = append(dps, c.DrainUnordered(1)...)
	}
''', ''))
bad('P01-memtrim-small', 'P01', (CM, '''		if centroid.LenDP() != 0 {
			centroids''', '''		if centroid.LenDP() > 1 {
			centroids'''))
bad('P01-memtrim-break', 'P01', (CM, '''		if centroid.LenDP() != 0 {
			centroids = append(centroids, centroid)
		}
''', '''		if centroid.LenDP() == 0 {
			break
		}
		centroids = append(centroids, centroid)
'''))
good('P01-memtrim-continue', (CM, '''		if centroid.LenDP() != 0 {
			centroids = append(centroids, centroid)
		}
''', '''		if centroid.LenDP() == 0 {
			continue
		}
		centroids = append(centroids, centroid)
'''))
bad('P01-split-skip', 'P01', (CM, '''	for i := 0; i < len(dps); i++ {
		newCentroid.AddDataPoint(dps[i])
	}
''', '''	for i := 1; i < len(dps); i++ {
		newCentroid.AddDataPoint(dps[i])
	}
'''))
bad('P01-split-dim', 'P01', (CM, '''	newVec := make([]float64, len(oldCentroid.Vec()))
	copy(newVec, oldCentroid.Vec())
''', '''	newVec := make([]float64, len(cm.vec))
	copy(newVec, oldCentroid.Vec())
'''))
bad('P01-split-fail', 'P01', (CM, '''		newCentroid.AddDataPoint(dps[i])
	}
	return newCentroid, true
''', '''		newCentroid.AddDataPoint(dps[i])
	}
	return newCentroid, newCentroid.LenDP() > 1
'''))
bad('P01-add-nosplit', 'P01', (CM, '''		if splitOK {
			cm.Centroids = append(cm.Centroids, newCentroid)
			cm.syncVec()
		}
''', '''		if splitOK && newCentroid.LenDP() >= cm.initCap {
			cm.Centroids = append(cm.Centroids, newCentroid)
			cm.syncVec()
		}
'''))
good('P01-split-range', (CM, '''	for i := 0; i < len(dps); i++ {
		newCentroid.AddDataPoint(dps[i])
	}
''', '''	for _, dp := range dps {
		newCentroid.AddDataPoint(dp)
	}
'''))
bad('P01-merge-partial', 'P01 P24', (CM, 'other.DrainUnordered(other.LenDP())', 'other.DrainUnordered(candidate.LenDP())'))
bad('P01-merge-marks-late', 'P01 P24', (CM, '''			if centroidIndex == i || delMarks[centroidIndex] {
				continue
			}
			// Merge other _completely_ into candidate.
			delMarks[centroidIndex] = true
			other := cm.Centroids[centroidIndex]
''', '''			if delMarks[centroidIndex] {
				continue
			}
			// Merge other _completely_ into candidate.
			delMarks[centroidIndex] = centroidIndex != i
			other := cm.Centroids[centroidIndex]
'''))
bad('P01-merge-forward', 'P01', (CM, 'for i := len(cm.Centroids) - 1; i > -1; i-- {\n		if delMarks', 'for i := 0; i < len(cm.Centroids); i++ {\n		if delMarks'))
bad('P01-merge-some', 'P01', (CM, '''				candidate.AddDataPoint(dp)
			}
			if !merge''', '''				candidate.AddDataPoint(dp)
				if !merge(candidate) {
					break
				}
			}
			if !merge'''))
good('P01-merge-filter', (CM, '''	for i := len(cm.Centroids) - 1; i > -1; i-- {
		if delMarks[i] {
			// Delete.
			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
		}
	}
''', '''	kept := make([]*centroid.Centroid, 0, len(cm.Centroids))
	for i, c := range cm.Centroids {
		if !delMarks[i] {
			kept = append(kept, c)
		}
	}
	cm.Centroids = kept
'''))
good('P01-merge-slice', (CM, 'delMarks := make(map[int]bool, len(cm.Centroids))', 'delMarks := make([]bool, len(cm.Centroids))'))
good('P01-merge-mark-after', (CM, '''			delMarks[centroidIndex] = true
			other := cm.Centroids[centroidIndex]
''', '''			other := cm.Centroids[centroidIndex]
'''), (CM, '''				candidate.AddDataPoint(dp)
			}
			if !merge''', '''				candidate.AddDataPoint(dp)
			}
			delMarks[centroidIndex] = true
			if !merge'''))
bad('P01-lookup-surplus', 'P01', (CM, '''			case len(res) >= k && drain:
				centroid.AddDataPoint(dp)
''', '''			case len(res) >= k && drain && len(res) > k:
				centroid.AddDataPoint(dp)
'''), (CM, 'centroid.KNNLookup(vec, k-len(res), drain)', 'centroid.KNNLookup(vec, k, drain)'))
bad('P01-fast-noput', 'P01', (RS, '''	for _, dp := range dps {
		gen := rsl.intoVecGenerator()
		if !distributeDP''', '''	if len(addrs) == 0 {
		return nil
	}
	for _, dp := range dps {
		gen := rsl.intoVecGenerator()
		if !distributeDP'''))
bad('P01-fast-drain-first', 'P01', (RS, '''		// Nothing would take care of drained dps without any receivers.
		if len(args.AddrOptions) != 0 {
			dps = append(dps, cm.DrainOrdered(args.N)...)
		}
	})

	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
		return nsErr
	}

	// Fetch''', '''		dps = append(dps, cm.DrainOrdered(args.N)...)
	})

	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
		return nsErr
	}

	// Fetch'''))
bad('P01-fast-putback-max', 'P01', (RS, '''		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
	}
	return nil
}

// DistributeDataPointsAccurate''', '''		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) && !dp.ExpireEnabled {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
	}
	return nil
}

// DistributeDataPointsAccurate'''))
bad('P01-distdp-true', 'P01', (RS, '''		if client.AddDataPoint(dp) {
			return true
		}
	}
	return false
''', '''		if client.AddDataPoint(dp) {
			return true
		}
	}
	return len(addrs) != 0
'''))
bad('P01-distdp-dup', 'P01', (RS, '''		if client.AddDataPoint(dp) {
			return true
		}
	}
	return false
''', '''		if client.AddDataPoint(dp) {
			return index < len(addrs)-1
		}
	}
	return false
'''))
bad('P01-steal-ok', 'P01', (RS, '''			cm.Centroids = append(cm.Centroids, centroids...)
			r.TransferredN += centroids[0].LenDP()
''', '''			if centroids[0].LenDP()+r.TransferredN > args.TransferDPLimit {
				return
			}
			cm.Centroids = append(cm.Centroids, centroids...)
			r.TransferredN += centroids[0].LenDP()
'''))
bad('P01-steal-first', 'P01', (RS, '			cm.Centroids = append(cm.Centroids, centroids...)\n', '			cm.Centroids = append(cm.Centroids, centroids[0])\n'))
bad('P01-steal-err', 'P01', (RS, '		if !cOK || len(centroids) == 0 {\n			break', '		if !cOK || len(centroids) == 0 || len(centroids[0].Vec()) != len(localVec) {\n			break'))
bad('P01-steal-noslot', 'P01', (RS, '''		cm := s.CentroidManagerFactoryFunc(localVec)
		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
''', ''))
good('P01-steal-loop', (RS, '''			cm.Centroids = append(cm.Centroids, centroids...)
			r.TransferredN''', '''			for _, c := range centroids {
				cm.Centroids = append(cm.Centroids, c)
			}
			r.TransferredN'''))
bad('P01-answer-small', 'P01', (RC, 'resp[i] == nil || resp[i].LenDP() == 0', 'resp[i] == nil || resp[i].LenDP() <= 1'))
bad('P01-answer-cut', 'P01', (RC, '		newCentroid.DataPoints = dps\n', '		newCentroid.DataPoints = dps[:len(dps)-1]\n'))
bad('P01-answer-forward', 'P01', (RC, '	return resp, true\n', '	if len(resp) > n {\n		resp = resp[:n]\n	}\n	return resp, true\n'))
bad('P01-answer-none', 'P01', (RC, '	if resp == nil || len(resp) == 0 {\n		return nil, false\n	}\n\n	// Remove nil', '	if *c.err != nil || len(resp) < n {\n		return nil, false\n	}\n\n	// Remove nil'))
good('P01-answer-rebuild', (RC, '''	for i := len(resp) - 1; i >= 0; i-- { // Backwards for removal safety.
		if resp[i] == nil || resp[i].LenDP() == 0 {
			resp = append(resp[:i], resp[i+1:]...)
		}
	}
''', '''	full := make([]*Centroid, 0, len(resp))
	for _, received := range resp {
		if received != nil && received.LenDP() != 0 {
			full = append(full, received)
		}
	}
	resp = full
'''))
