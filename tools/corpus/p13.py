CM = 'pkg/kmeans/centroidmanager/cmanager.go'
RS = 'pkg/kmeans/rpc/server.go'
PREP = '''	oldVec := make([]float64, (len(v1)))
	copy(oldVec, v1)
	return func(v2 []float64) {
		cmLen := float64(len(cm.Centroids))
		cm.vec = mathutils.VecMulScalar(cm.vec, cmLen)
		cm.vec, _ = mathutils.VecSub(cm.vec, oldVec)
		cm.vec, _ = mathutils.VecAdd(cm.vec, v2)
		cm.vec = mathutils.VecDivScalar(cm.vec, cmLen)
	}
'''
bad('P13-prep-swap', 'P13', (CM, PREP, PREP.replace('VecSub(cm.vec, oldVec)', 'VecSub(cm.vec, v2)').replace('VecAdd(cm.vec, v2)', 'VecAdd(cm.vec, oldVec)')))
bad('P13-prep-div', 'P13', (CM, PREP, PREP.replace('VecDivScalar(cm.vec, cmLen)', 'VecDivScalar(cm.vec, cmLen+1)')))
bad('P13-prep-nosub', 'P13', (CM, PREP, PREP.replace('		cm.vec, _ = mathutils.VecSub(cm.vec, oldVec)\n', '		_ = oldVec\n')))
bad('P13-expire-late', 'P13', (CM, '''		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
''', '''		centroid.Expire()
		updateVec := cm.prepVecUpdate(centroid.Vec())
'''))
bad('P13-expire-partial', 'P13', (CM, '''		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
''', '''		centroid.Expire()
		if centroid.LenDP() == 0 {
			continue
		}
		// Finalize internal vec update.
		updateVec(centroid.Vec())
'''))
bad('P13-split-nosync', 'P13', (CM, '''			cm.Centroids = append(cm.Centroids, newCentroid)
			cm.syncVec()
''', '''			cm.Centroids = append(cm.Centroids, newCentroid)
'''))
bad('P13-splits-before', 'P13', (CM, '''	cm.Centroids = append(cm.Centroids, newCentroids...)
	cm.syncVec()
''', '''	cm.syncVec()
	cm.Centroids = append(cm.Centroids, newCentroids...)
'''))
bad('P13-splits-some', 'P13', (CM, '''	cm.Centroids = append(cm.Centroids, newCentroids...)
	cm.syncVec()
''', '''	cm.Centroids = append(cm.Centroids, newCentroids...)
	if len(newCentroids) > 1 {
		cm.syncVec()
	}
'''))
bad('P13-memtrim-if', 'P13', (CM, '''	cm.Centroids = centroids
	// Done in bulk''', '''	if len(centroids) == len(cm.Centroids) {
		return
	}
	cm.Centroids = centroids
	// Done in bulk'''))
bad('P13-merge-nosync', 'P13', (CM, '''	// be subtracted from the internal vector when deleting that centroid.
	cm.syncVec()
''', '''	// be subtracted from the internal vector when deleting that centroid.
	if len(delMarks) == 0 {
		cm.syncVec()
	}
'''))
bad('P13-nearest-guard', 'P13', (CM, 'if len(cm.Centroids) > 1 { // guard', 'if len(cm.Centroids) > 2 { // guard'))
bad('P13-nearest-div', 'P13', (CM, 'cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))', 'cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)))'))
bad('P13-nearest-i', 'P13', (CM, 'cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())', 'cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[i].Vec())'))
bad('P13-move-first', 'P13', (CM, '''	for _, centroid := range cm.Centroids {
		centroid.MoveVector()
	}

	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())
	if ok {
		cm.vec = vec
	}
	return ok
''', '''	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())
	if ok {
		cm.vec = vec
	}
	for _, centroid := range cm.Centroids {
		centroid.MoveVector()
	}
	return ok
'''))
bad('P13-gen-skip', 'P13', (CM, '''		if i >= len(cm.Centroids) {
			return nil, false
		}
		i++
''', '''		for i < len(cm.Centroids) && cm.Centroids[i].LenDP() == 0 {
			i++
		}
		if i >= len(cm.Centroids) {
			return nil, false
		}
		i++
'''))
bad('P13-distribute-nomove', 'P13', (CM, '''	// Centroid.DistributeDataPoints,
	cm.MoveVector()
''', '''	// Centroid.DistributeDataPoints,
	if len(receivers) > 1 {
		cm.MoveVector()
	}
'''))
bad('P13-first', 'P13', (CM, '''		cm.Centroids = append(cm.Centroids, c)
		cm.vec = c.Vec()
		return true
''', '''		cm.Centroids = append(cm.Centroids, c)
		if len(cm.vec) != len(dp.Vec) {
			cm.vec = c.Vec()
		}
		return true
'''))
bad('P13-knn-updatefirst', 'P13', (CM, '''		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		for _, dp := range centroid.KNNLookup(vec, k-len(res), drain) {
''', '''		// Prep for internal vec update.
		found := centroid.KNNLookup(vec, k-len(res), drain)
		updateVec := cm.prepVecUpdate(centroid.Vec())
		for _, dp := range found {
'''))
bad('P13-knn-break', 'P13', (CM, '''		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
	return res
}

// NearestCentroids attempts''', '''		if len(res) >= k {
			break
		}
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
	return res
}

// NearestCentroids attempts'''))
bad('P13-steal-move-ok', 'P13', (RS, '''	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
		cm.MoveVector()
	})

	r.OK''', '''	if clientErr == nil {
		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
			cm.MoveVector()
		})
	}

	r.OK'''))
bad('P13-steal-return', 'P13', (RS, '''		if !cOK || len(centroids) == 0 {
			break
		}
''', '''		if !cOK || len(centroids) == 0 {
			r.OK = clientErr == nil
			return nil
		}
'''))
good('P13-prep-expand', (CM, '''		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
''', '''		old := centroid.Vec()
		centroid.Expire()
		if d, ok := mathutils.VecSub(centroid.Vec(), old); ok {
			cm.vec, _ = mathutils.VecAdd(cm.vec, mathutils.VecDivScalar(d, float64(len(cm.Centroids))))
		}
'''))
good('P13-expire-sync', (CM, '''		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
''', '''		centroid.Expire()
	}
	cm.syncVec()
'''))
good('P13-prep-nocopy', (CM, PREP, PREP.replace('''	oldVec := make([]float64, (len(v1)))
	copy(oldVec, v1)
''', '''	oldVec := append([]float64{}, v1...)
''')))
good('P13-prep-tmp', (CM, PREP, PREP.replace('''		cm.vec = mathutils.VecMulScalar(cm.vec, cmLen)
		cm.vec, _ = mathutils.VecSub(cm.vec, oldVec)
		cm.vec, _ = mathutils.VecAdd(cm.vec, v2)
		cm.vec = mathutils.VecDivScalar(cm.vec, cmLen)
''', '''		sum := mathutils.VecMulScalar(cm.vec, cmLen)
		sum, _ = mathutils.VecSub(sum, oldVec)
		sum, _ = mathutils.VecAdd(sum, v2)
		cm.vec = mathutils.VecDivScalar(sum, cmLen)
''')))
good('P13-move-syncs', (CM, '''	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())
	if ok {
		cm.vec = vec
	}
	return ok
''', '''	cm.syncVec()
	return len(cm.Centroids) > 0
'''))
good('P13-memtrim-inplace', (CM, '''	cm.Centroids = centroids
	// Done in bulk''', '''	cm.Centroids = append(make([]*centroid.Centroid, 0, len(centroids)), centroids...)
	// Done in bulk'''))
good('P13-steal-move-each', (RS, '''			r.TransferredN += centroids[0].LenDP()
''', '''			cm.MoveVector()
			r.TransferredN += centroids[0].LenDP()
'''))
good('P13-nearest-helper', (CM, '''			// Auto-adjust internal vec.
			if len(cm.Centroids) > 1 { // guard 0 div error.
				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
			}
			// Delete.
			cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)
''', '''			cm.dropCentroid(j)
'''), (CM, '''// SplitCentroids iterates''', '''func (cm *CentroidManager) dropCentroid(j int) {
	if n := len(cm.Centroids); n > 1 { // guard 0 div error.
		v := mathutils.VecMulScalar(cm.vec, float64(n))
		v, _ = mathutils.VecSub(v, cm.Centroids[j].Vec())
		cm.vec = mathutils.VecDivScalar(v, float64(n-1))
	}
	cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)
}

// SplitCentroids iterates'''))
