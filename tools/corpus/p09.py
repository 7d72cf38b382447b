CE='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'; RS='pkg/kmeans/rpc/server.go'; RC='pkg/kmeans/rpc/client.go'; GD='core/dps/getdps.go'; AH='core/api/handler.go'
bad('P09-lookup-sorted-copy','P09',(CE,'''	for _, i := range indexes {
		res = append(res, c.DataPoints[i])
	}

	// Secondary''','''	for _, i := range indexes {
		if len(res) < 1 || i != 0 {
			res = append(res, c.DataPoints[i])
		}
	}

	// Secondary'''))
bad('P09-lookup-noflag','P09',(CE,'	if drain {\n		// Sorting','	if drain || k == 1 {\n		// Sorting'))
bad('P09-lookup-forward','P09',(CE,'''		for i := len(indexes) - 1; i > -1; i-- {
			c.rmDataPoint(indexes[i])
		}
	}
	return res''','''		for i := range indexes {
			c.rmDataPoint(indexes[i] - i)
			if len(c.DataPoints) == 0 {
				break
			}
		}
	}
	return res''',))
bad('P09-drain-last-kept','P09',(CE,'''	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.
''','''	for i := len(indexes) - 1; i > 0; i-- { // Backwards for removal safety.
'''))
bad('P09-cm-true','P09',(CM,'centroid.KNNLookup(vec, k-len(res), drain)','centroid.KNNLookup(vec, k-len(res), drain || len(res) > 0)'))
bad('P09-cm-nodrain-add','P09',(CM,'case len(res) >= k && drain:','case len(res) >= k && !drain:'),(CM,'''			case len(res) >= k && !drain:
				break
''','''			case len(res) >= k && drain:
				break
'''))
bad('P09-server-nc','P09',(RS,'cm.NearestCentroids(args.Vec, args.N, args.Drain)','cm.NearestCentroids(args.Vec, args.N, args.Drain && args.N > 1)'))
bad('P09-server-ncv','P09',(RS,'cm.NearestCentroids(args.Vec, 1, false)','cm.NearestCentroids(args.Vec, 1, true)'))
bad('P09-client-nodrain','P09',(RC,'K: k, Drain: drain}','K: k, Drain: drain && k > 0}'))
bad('P09-client-nc','P09',(RC,'N: n, Drain: drain}','N: n}'))
bad('P09-dps-flag','P09',(GD,'args.n-len(res), args.drain)','args.n-len(res), args.drain && len(res) == 0)'))
bad('P09-dps-private','P09',(GD,'		drain:     a.Drain,\n',''))
bad('P09-dps-cut','P09',(GD,'		res = append(res, dps...)\n','		if len(dps) > args.n/2+1 {\n			dps = dps[:args.n/2+1]\n		}\n		res = append(res, dps...)\n'))
bad('P09-dps-prefetch','P09',(GD,'''		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
		res = append(res, dps...)
''','''		dps := client.KNNLookup(args.queryVec, args.n, args.drain)
		for _, dp := range dps {
			if len(res) < args.n {
				res = append(res, dp)
			}
		}
'''))
bad('P09-nc-range','P09',(CM,'''			cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)
		}
	}
	return centroids, true''','''			cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)
			if len(cm.Centroids) == 1 {
				break
			}
		}
	}
	return centroids, true'''))
bad('P09-unordered-skip','P09',(CE,'''		if !c.DataPoints[0].Expired() {
			res = append(res, c.DataPoints[0])
		}
''','''		if !c.DataPoints[0].Expired() && len(c.DataPoints[0].Payload) > 0 {
			res = append(res, c.DataPoints[0])
		}
'''))
good('P09-lookup-helper',(CE,'''		sort.Ints(indexes)
		for i := len(indexes) - 1; i > -1; i-- {
			c.rmDataPoint(indexes[i])
		}
	}
	return res
}
''','''		c.rmAll(indexes)
	}
	return res
}

func (c *Centroid) rmAll(indexes []int) {
	sort.Sort(sort.Reverse(sort.IntSlice(indexes)))
	for _, index := range indexes {
		c.rmDataPoint(index)
	}
}
'''))
good('P09-early-return',(CE,'''	// Secondary loop because ints in indexes might not be ordered.
	if drain {
''','''	if !drain {
		return res
	}
	// Secondary loop because ints in indexes might not be ordered.
	{
'''))
good('P09-cm-branches',(CM,'''			switch {
			// Keep adding to res until requirement is met.
			case len(res) < k:
				res = append(res, dp)

			// Requirement met and drain is on, so the dps iterated over
			// in this loop have to be added somewhere (back into centroid).
			case len(res) >= k && drain:
				centroid.AddDataPoint(dp)

			// Requirement met and drain is off, so no dps will be lost
			// if a break is done here.
			case len(res) >= k && !drain:
				break
			}
''','''			if len(res) < k {
				res = append(res, dp)
			} else if drain {
				centroid.AddDataPoint(dp)
			}
'''))
good('P09-dps-loop',(GD,'''		res = append(res, dps...)
		if len(res) >= args.n {
			break
		}
''','''		for i := range dps {
			res = append(res, dps[i])
		}
		if len(res) < args.n {
			continue
		}
		break
'''))
good('P09-server-if',(RS,'''		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)
''','''		if args.Drain {
			*resp = cm.KNNLookup(args.Vec, args.K, true)
		} else {
			*resp = cm.KNNLookup(args.Vec, args.K, false)
		}
'''))
