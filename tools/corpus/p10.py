CE='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'; RS='pkg/kmeans/rpc/server.go'; RC='pkg/kmeans/rpc/client.go'; GD='core/dps/getdps.go'; KN='pkg/searchutils/knn.go'
bad('P10-portions-gt','P10',(CM,'			if assigned >= n {','			if assigned > n {'))
bad('P10-portions-outer','P10',(CM,'''			if assigned >= n {
				return portions
			}
		}
''','''		}
		if assigned >= n {
			return portions
		}
'''))
bad('P10-portions-noguard','P10',(CM,'''	if n <= 0 {
		return portions
	}
''','''	if n < 0 {
		return portions
	}
'''))
bad('P10-portions-two','P10',(CM,'				portions[i] = v + 1\n','				portions[i] = v + 2\n'))
bad('P10-portion-more','P10',(CM,'res = append(res, centroid.DrainOrdered(portion)...)','res = append(res, centroid.DrainOrdered(portion+1)...)'))
bad('P10-drain-le','P10',(CE,'for len(c.DataPoints) != 0 && len(res) < n {','for len(c.DataPoints) != 0 && len(res) <= n {'))
bad('P10-drain-ne','P10',(CE,'for len(c.DataPoints) != 0 && len(res) < n {','for len(c.DataPoints) != 0 && len(res) != n {'))
bad('P10-drain-atleast','P10',(CE,'''	for len(c.DataPoints) != 0 && len(res) < n {''','''	if n < 1 {
		n = 1
	}
	for len(c.DataPoints) != 0 && len(res) < n {'''))
bad('P10-ordered-more','P10',(CE,'indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)','indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n+1)'))
bad('P10-lookup-half','P10',(CM,'''			case len(res) < k:
				res = append(res, dp)
''','''			case len(res) < k || !drain:
				res = append(res, dp)
'''),(CM,'for _, dp := range centroid.KNNLookup(vec, k-len(res), drain) {','for _, dp := range centroid.KNNLookup(vec, k, drain) {'))
bad('P10-brute-le','P10',(KN,'		if len(res) < args.K {','		if len(res) <= args.K {'))
bad('P10-brute-seed','P10',(KN,'	res := make([]resultItem, 0)\n','	res := make([]resultItem, 1)\n'))
bad('P10-nearest-more','P10',(CM,'indexes := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), n)','indexes := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), n*2)'))
bad('P10-nearest-default','P10',(CM,'	indexes := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), n)','''	if n == 0 {
		n = len(cm.Centroids)
	}
	indexes := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), n)'''))
bad('P10-server-more','P10',(RS,'*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)','*resp = cm.KNNLookup(args.Vec, args.K+1, args.Drain)'))
bad('P10-server-twice','P10',(RS,'		*resp = cm.DrainUnordered(args.N)\n','		*resp = append(cm.DrainUnordered(args.N), cm.DrainOrdered(args.N-1)...)\n'))
bad('P10-query-all','P10',(GD,'client.KNNLookup(args.queryVec, args.n-len(res), args.drain)','client.KNNLookup(args.queryVec, args.n, args.drain)'))
bad('P10-query-one','P10',(GD,'''		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
''','''		want := args.n - len(res)
		if want < 5 {
			want = 5
		}
		dps := client.KNNLookup(args.queryVec, want, args.drain)
'''))
bad('P10-client','P10',(RC,'K: k, Drain: drain','K: k + 1, Drain: drain'))
good('P10-for-assigned',(CM,'''	for {
		// Keeps track of whether or not this loop made any change.
		assignedLast := assigned
''','''	for assigned < n {
		assignedLast := assigned
'''))
good('P10-want',(GD,'''		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
		res = append(res, dps...)
''','''		missing := args.n - len(res)
		dps := client.KNNLookup(args.queryVec, missing, args.drain)
		res = append(res, dps...)
'''))
good('P10-countdown',(GD,'''	res := make([]DataPoint, 0)
''','''	res := make([]DataPoint, 0)
	missing := args.n
'''),(GD,'''		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
		res = append(res, dps...)
''','''		dps := client.KNNLookup(args.queryVec, missing, args.drain)
		res = append(res, dps...)
		missing -= len(dps)
'''))
good('P10-lookup-spread',(CM,'''		for _, dp := range centroid.KNNLookup(vec, k-len(res), drain) {
			switch {
			// Keep adding to res until requirement is met.
			case len(res) < k:
				res = append(res, dp)

			// Requirement met and drain is on, so the dps iterated over
			// in this loop have to be added somewhere (back into centroid).
			case len(res) >= k && drain:
				centroid.AddDataPoint(dp)

			// Requirement met and drain is off, so no dps will be lost
			// if a break is done here.
			case len(res) >= k && !drain:
				break
			}
		}
''','''		res = append(res, centroid.KNNLookup(vec, k-len(res), drain)...)
'''))
good('P10-drain-count',(CE,'''	for len(c.DataPoints) != 0 && len(res) < n {
''','''	for {
		if len(c.DataPoints) == 0 || len(res) >= n {
			break
		}
'''))
good('P10-nonpositive',(CE,'''	for len(c.DataPoints) != 0 && len(res) < n {
''','''	if n <= 0 {
		return res
	}
	for len(c.DataPoints) != 0 && len(res) < n {
'''))
good('P10-brute-full',(KN,'		if len(res) < args.K {','		if full := len(res) >= args.K; !full {'))
