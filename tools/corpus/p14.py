CE = 'pkg/kmeans/centroid/centroid.go'
CM = 'pkg/kmeans/centroidmanager/cmanager.go'
SU = 'pkg/searchutils/knn.go'
SV = 'pkg/kmeans/rpc/server.go'
CL = 'pkg/kmeans/rpc/client.go'
AP = 'core/api/conv.go'
GD = 'core/dps/getdps.go'
VT = 'pkg/mathutils/vectools.go'
DP = 'core/dps/dps.go'
# sizes
bad('P14-drain-cap', 'P14', (CE, '''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 &&''', '''	res := make([]common.DataPoint, 0, n)
	for len(c.DataPoints) != 0 &&'''))
bad('P14-drain-cap-guard', 'P14', (CE, '''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 &&''', '''	room := 0
	if n > 0 {
		room = n
	}
	res := make([]common.DataPoint, 0, room)
	for len(c.DataPoints) != 0 &&'''))
bad('P14-drain-cap-max', 'P14', (CE, '''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 &&''', '''	room := n
	if room < len(c.DataPoints) {
		room = len(c.DataPoints)
	}
	res := make([]common.DataPoint, 0, room)
	for len(c.DataPoints) != 0 &&'''))
bad('P14-drain-cap-min-neg', 'P14', (CE, '''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 &&''', '''	room := n
	if room > len(c.DataPoints) {
		room = len(c.DataPoints)
	}
	res := make([]common.DataPoint, 0, room)
	for len(c.DataPoints) != 0 &&'''))
good('P14-drain-cap-min', (CE, '''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 &&''', '''	room := n
	if room > len(c.DataPoints) {
		room = len(c.DataPoints)
	}
	if room < 0 {
		room = 0
	}
	res := make([]common.DataPoint, 0, room)
	for len(c.DataPoints) != 0 &&'''))
bad('P14-knn-k', 'P14', (SU, 'res := make([]resultItem, 0)', 'res := make([]resultItem, 0, args.K)'))
bad('P14-portions-n', 'P14', (CM, 'portions := make(map[int]int)', 'portions := make(map[int]int, n)'))
good('P14-portions-len', (CM, 'portions := make(map[int]int)', 'portions := make(map[int]int, len(cm.Centroids))'))
bad('P14-server-n', 'P14', (SV, '''func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
	dps := make([]DataPoint, 0)''', '''func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
	dps := make([]DataPoint, 0, args.N)'''))
bad('P14-client-n', 'P14', (CL, 'resp := make([]DataPoint, 0)', 'resp := make([]DataPoint, 0, k)'))
bad('P14-getdps-n', 'P14', (GD, 'res := make([]DataPoint, 0)', 'res := make([]DataPoint, 0, args.n)'))
bad('P14-manager-knn', 'P14', (CM, '''drain bool) []common.DataPoint {
	res := make([]common.DataPoint, 0)
''', '''drain bool) []common.DataPoint {
	res := make([]common.DataPoint, 0, k)
'''))
bad('P14-nearest-cap', 'P14', (CM, 'centroids := make([]*centroid.Centroid, 0, len(indexes))', 'centroids := make([]*centroid.Centroid, 0, n)'))
# loops
bad('P14-portions-endless', 'P14', (CM, '''		if assignedLast == assigned {
			break
		}
''', '''		if assignedLast > assigned {
			break
		}
'''))
bad('P14-portions-endless2', 'P14', (CM, '''		// Keeps track of whether or not this loop made any change.
		assignedLast := assigned
''', ''), (CM, '''		// Tried to assign but couldn't, no point in infinite looping.
		if assignedLast == assigned {
			break
		}
''', ''))
# indexes
bad('P14-drain-noguard', 'P14', (CE, 'for len(c.DataPoints) != 0 && len(res) < n {', 'for len(res) < n {'))
bad('P14-drain-noguard-le', 'P14', (CE, 'for len(c.DataPoints) != 0 && len(res) < n {', 'for i := 0; i < n && i <= len(c.DataPoints); i++ {'))
bad('P14-receivers', 'P14', (CE, 'if len(indexes) == 0 || !receivers[', 'if !receivers['))
bad('P14-unsorted', 'P14', (CE, '''	sort.Ints(indexes)
	for i := len(indexes) - 1; i > -1; i-- { // Backwards''', '''	for i := len(indexes) - 1; i > -1; i-- { // Backwards'''), (CE, '''		sort.Ints(indexes)
		for i''', '''		for i'''), (CE, '	"sort"\n', ''))
bad('P14-forwards', 'P14', (CE, 'for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.', 'for i := 0; i < len(indexes); i++ {'))
bad('P14-merge-forwards', 'P14', (CM, 'for i := len(cm.Centroids) - 1; i > -1; i-- {', 'for i, n := 0, len(cm.Centroids); i < n; i++ {'))
bad('P14-merge-past', 'P14', (CM, 'for i := len(cm.Centroids) - 1; i > -1; i-- {', 'for i := len(cm.Centroids); i > -1; i-- {'))
bad('P14-gen-past', 'P14', (CM, '''		if i >= len(cm.Centroids) {
			return nil, false
		}
		i++
		return cm''', '''		if i > len(cm.Centroids) {
			return nil, false
		}
		i++
		return cm'''))
bad('P14-gen-expired', 'P14', (CE, '''		if i >= len(c.DataPoints) {
			return nil, false
		}
		i++''', '''		if len(c.DataPoints) == 0 {
			return nil, false
		}
		i++'''))
bad('P14-knn-fixed', 'P14', (CM, 'for _, dp := range centroid.KNNLookup(vec, k-len(res), drain) {', 'got := centroid.KNNLookup(vec, k-len(res), drain)\n		for i := 0; i < k-len(res); i++ {\n			dp := got[i]'))
bad('P14-portion-shrinks', 'P14', (CM, '''		res = append(res, centroid.DrainUnordered(portion)...)
''', '''		res = append(res, centroid.DrainUnordered(portion)...)
		if centroid.LenDP() == 0 {
			cm.Centroids = append(cm.Centroids[:centroidIndex], cm.Centroids[centroidIndex+1:]...)
		}
'''))
bad('P14-slice-n', 'P14', (CM, '''	res := make([]common.DataPoint, 0)
	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
		centroid := cm.Centroids[centroidIndex]
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		res = append(res, centroid.DrainOrdered(portion)...)
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
	return res
''', '''	res := make([]common.DataPoint, 0)
	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
		centroid := cm.Centroids[centroidIndex]
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		res = append(res, centroid.DrainOrdered(portion)...)
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
	return res[:n]
'''))
bad('P14-vec-dim', 'P14 P08', (VT, '''		if len(vec) != len(res) {''', '''		if len(vec) > len(res) {'''))
bad('P14-rand', 'P14', (DP, 'rand.Intn(len(addrs))', 'rand.Intn(len(addrs) - 1)'))
# panics
bad('P14-panic-n', 'P14', (CE, '''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 &&''', '''	res := make([]common.DataPoint, 0)
	if n < 0 {
		panic("centroid: negative amount")
	}
	for len(c.DataPoints) != 0 &&'''))
good('P14-refuse-n', (CE, '''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 &&''', '''	res := make([]common.DataPoint, 0)
	if n < 0 {
		return res
	}
	for len(c.DataPoints) != 0 &&'''))
bad("P14-map-counter", "P14", ("pkg/kmeans/rpc/rpc.go", "	namespaces := make([]string, 0, len(t.slots))\n	for namespace := range t.slots {\n		namespaces = append(namespaces, namespace)\n	}\n\n	return namespaces", "	i := 1\n	namespaces := make([]string, len(t.slots))\n	for namespace := range t.slots {\n		namespaces[i] = namespace\n		i++\n	}\n	return namespaces"))
