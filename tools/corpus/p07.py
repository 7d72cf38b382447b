CE='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'; RS='pkg/kmeans/rpc/server.go'; RC='pkg/kmeans/rpc/client.go'; DP='pkg/kmeans/common/datapoint.go'
F='	return dp.ExpireEnabled && time.Now().After(dp.Expires)\n'
bad('P07-exp-or','P07',(DP,F,'	return dp.ExpireEnabled && (dp.Expires.IsZero() || time.Now().After(dp.Expires))\n'))
bad('P07-exp-zero','P07',(DP,F,'	return dp.ExpireEnabled && !dp.Expires.IsZero() && time.Now().After(dp.Expires)\n'))
bad('P07-exp-enabled','P07',(DP,F,'	return time.Now().After(dp.Expires) && (dp.ExpireEnabled || !dp.Expires.IsZero())\n'))
bad('P07-exp-unix','P07',(DP,F,'	return dp.ExpireEnabled && time.Now().Unix() > dp.Expires.Unix()\n'))
bad('P07-exp-grace','P07',(DP,F,'	return dp.ExpireEnabled && time.Now().Add(-time.Second).After(dp.Expires)\n'))
bad('P07-exp-before','P07',(DP,F,'	return dp.ExpireEnabled && time.Now().Before(dp.Expires)\n'))
good('P07-exp-if',(DP,F,'	if !dp.ExpireEnabled {\n		return false\n	}\n	now := time.Now()\n	return dp.Expires.Before(now)\n'))
good('P07-exp-since',(DP,F,'	return time.Since(dp.Expires) > 0 && dp.ExpireEnabled\n'))
good('P07-exp-not',(DP,F,'	expired := false\n	if dp.ExpireEnabled {\n		expired = !time.Now().Before(dp.Expires)\n	}\n	return expired\n'))
bad('P07-add-zero','P07',(CE,'	if len(dp.Vec) != len(c.vec) || dp.Expired() {','	if len(dp.Vec) != len(c.vec) || len(c.DataPoints) > 0 && dp.Expired() {'))
bad('P07-add-enabled','P07',(CE,'	if len(dp.Vec) != len(c.vec) || dp.Expired() {','	if len(dp.Vec) != len(c.vec) || dp.Expired() || dp.ExpireEnabled && len(dp.Payload) == 0 {'))
bad('P07-cm-add','P07',(CM,'''	if dp.Expired() {
		return false
	}

	// Add first''','''	if dp.ExpireEnabled && len(cm.Centroids) == 0 {
		return false
	}

	// Add first'''))
bad('P07-gen-if','P07',(CE,'for i < len(c.DataPoints) && c.DataPoints[i].Expired() {','if i < len(c.DataPoints) && c.DataPoints[i].Expired() {'))
bad('P07-gen-none','P07',(CE,'''		for i < len(c.DataPoints) && c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
''',''))
bad('P07-drain-noexp','P07',(CE,'		if !c.DataPoints[0].Expired() {\n			res','		if !c.DataPoints[0].Expired() || len(c.DataPoints) == 1 {\n			res'))
bad('P07-expire-skip','P07',(CE,'''			c.rmDataPoint(i)
			continue
		}
		i++
''','''			c.rmDataPoint(i)
		}
		i++
'''))
bad('P07-expire-range','P07',(CE,'''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''','''	for i := len(c.DataPoints) - 1; i > 0; i-- {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
	}
'''))
bad('P07-expire-stop','P07',(CE,'''			c.rmDataPoint(i)
			continue
		}
		i++
''','''			c.rmDataPoint(i)
			continue
		}
		if !c.DataPoints[i].ExpireEnabled {
			break
		}
		i++
'''))
bad('P07-expire-more','P07',(CE,'''		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
''','''		if c.DataPoints[i].ExpireEnabled && !c.DataPoints[i].Expires.After(c.DataPoints[0].Expires) {
			c.rmDataPoint(i)
			continue
		}
		i++
'''))
good('P07-expire-back',(CE,'''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''','''	for i := len(c.DataPoints) - 1; i >= 0; i-- {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
	}
'''))
good('P07-expire-for',(CE,'''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''','''	for i := 0; i < len(c.DataPoints); {
		if dp := c.DataPoints[i]; dp.Expired() {
			c.rmDataPoint(i)
		} else {
			i++
		}
	}
'''))
good('P07-expire-gen',(CE,'''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''','''	gen := c.dataPointVecGenerator()
	for {
		if _, more := gen(); !more {
			break
		}
	}
'''))
good('P07-expire-j',(CE,'''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''','''	for i := 0; i < len(c.DataPoints); i++ {
		for i < len(c.DataPoints) && c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
	}
'''))
bad('P07-cm-expire-skip','P07',(CM,'''		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
''','''		updateVec := cm.prepVecUpdate(centroid.Vec())
		if centroid.LenDP() > 1 {
			centroid.Expire()
		}
'''))
bad('P07-cm-expire-break','P07',(CM,'''		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
''','''		n := centroid.LenDP()
		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
		if centroid.LenDP() == n {
			break
		}
'''))
good('P07-cm-expire-empty',(CM,'''		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
''','''		if centroid.LenDP() == 0 {
			continue
		}
		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
'''))
bad('P07-cm-lookup-own','P07',(CM,'		for _, dp := range centroid.KNNLookup(vec, k-len(res), drain) {\n','		if !drain && centroid.LenDP() <= k-len(res) {\n			res = append(res, centroid.DataPoints...)\n			continue\n		}\n		for _, dp := range centroid.KNNLookup(vec, k-len(res), drain) {\n'))
bad('P07-lookup-all','P07',(CE,'''	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
	for _, i := range indexes {''','''	if k >= len(c.DataPoints) && !drain {
		return append(res, c.DataPoints...)
	}
	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
	for _, i := range indexes {'''))
bad('P07-lookup-gen2','P07',(CE,'	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)\n','''	j := 0
	indexes := c.knnSearchFunc(vec, func() ([]float64, bool) {
		if j >= len(c.DataPoints) {
			return nil, false
		}
		j++
		return c.DataPoints[j-1].Vec, true
	}, k)
'''))
bad('P07-memtrim-copy','P07',(CE,'''	dps := make([]common.DataPoint, 0)
	// Using''','''	if cap(c.DataPoints) == len(c.DataPoints) {
		return
	}
	dps := make([]common.DataPoint, 0)
	// Using'''))
bad('P07-client-nomove','P07',(RC,'		newCentroid.MoveVector()\n','		if len(dps) > 1 {\n			newCentroid.MoveVector()\n		}\n'))
good('P07-drain-cont',(CE,'''		if !c.DataPoints[0].Expired() {
			res = append(res, c.DataPoints[0])
		}
		c.rmDataPoint(0)
''','''		if dp := c.DataPoints[0]; !dp.Expired() {
			res = append(res, dp)
		}
		c.rmDataPoint(0)
'''))
good('P07-gen-loop',(CE,'''		for i < len(c.DataPoints) && c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
		if i >= len(c.DataPoints) {
			return nil, false
		}
		i++
		return c.DataPoints[i-1].Vec, true
''','''		for i < len(c.DataPoints) {
			if dp := c.DataPoints[i]; !dp.Expired() {
				i++
				return dp.Vec, true
			}
			c.rmDataPoint(i)
		}
		return nil, false
'''))
