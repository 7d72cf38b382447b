# Rewrites of whole functions, in the style of an everyday clean-up.
C = "pkg/kmeans/centroid/centroid.go"
good("Z1-c-new-copy", (C, "	for i, v := range args.InitVec {\n		c.vec[i] = v\n	}\n	return c, true", "	copy(c.vec, args.InitVec)\n	return c, true"))
good("Z1-c-new-first", (C, "FUNC func NewCentroid(", '''
func NewCentroid(args NewCentroidArgs) (Centroid, bool) {
	var c Centroid
	if args.KNNSearchFunc == nil {
		return c, false
	}
	if args.KFNSearchFunc == nil {
		return c, false
	}
	vec := make([]float64, len(args.InitVec))
	copy(vec, args.InitVec)
	c.vec = vec
	c.DataPoints = make([]common.DataPoint, 0, args.InitCap)
	c.knnSearchFunc, c.kfnSearchFunc = args.KNNSearchFunc, args.KFNSearchFunc
	return c, true
}
'''))
good("Z1-c-add-n", (C, "FUNC func (c *Centroid) addDataPoint(", '''
func (c *Centroid) addDataPoint(dp common.DataPoint) {
	n := float64(len(c.DataPoints))
	c.DataPoints = append(c.DataPoints, dp)

	// Auto-adjust internal vec.
	sum := mathutils.VecMulScalar(c.vec, n)
	sum, _ = mathutils.VecAdd(sum, dp.Vec)
	c.vec = mathutils.VecDivScalar(sum, n+1)
}
'''))
good("Z1-c-add-split-cond", (C, "FUNC func (c *Centroid) AddDataPoint(", '''
func (c *Centroid) AddDataPoint(dp common.DataPoint) bool {
	sameDim := len(dp.Vec) == len(c.vec)
	if !sameDim {
		return false
	}
	if dp.Expired() {
		return false
	}
	c.addDataPoint(dp)
	return true
}
'''))
good("Z1-c-add-positive", (C, "FUNC func (c *Centroid) AddDataPoint(", '''
func (c *Centroid) AddDataPoint(dp common.DataPoint) (ok bool) {
	if ok = len(dp.Vec) == len(c.vec) && !dp.Expired(); ok {
		c.addDataPoint(dp)
	}
	return ok
}
'''))
good("Z1-c-add-inlined", (C, "FUNC func (c *Centroid) addDataPoint(", ""), (C, "// addDataPoint adjusts the internal vector while adding new dps.\n", ""), (C, "	c.addDataPoint(dp)\n	return true", '''	n := len(c.DataPoints)
	c.vec = mathutils.VecMulScalar(c.vec, float64(n))
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecDivScalar(c.vec, float64(n+1))
	c.DataPoints = append(c.DataPoints, dp)
	return true'''))
good("Z1-c-rm-vars", (C, "FUNC func (c *Centroid) rmDataPoint(", '''
func (c *Centroid) rmDataPoint(index int) {
	count := len(c.DataPoints)
	removed := c.DataPoints[index]
	c.DataPoints = append(c.DataPoints[:index], c.DataPoints[index+1:]...)
	if count <= 1 {
		return
	}
	sum := mathutils.VecMulScalar(c.vec, float64(count))
	sum, _ = mathutils.VecSub(sum, removed.Vec)
	c.vec = mathutils.VecDivScalar(sum, float64(count-1))
}
'''))
good("Z1-c-rm-helper", (C, "FUNC func (c *Centroid) rmDataPoint(", '''
func (c *Centroid) rmDataPoint(index int) {
	c.subtractVec(c.DataPoints[index].Vec)
	c.DataPoints = append(c.DataPoints[:index], c.DataPoints[index+1:]...)
}

// subtractVec takes a vec out of the internal mean.
func (c *Centroid) subtractVec(vec []float64) {
	n := len(c.DataPoints)
	if n < 2 {
		return // guard 0 div error.
	}
	c.vec = mathutils.VecMulScalar(c.vec, float64(n))
	c.vec, _ = mathutils.VecSub(c.vec, vec)
	c.vec = mathutils.VecDivScalar(c.vec, float64(n-1))
}
'''))
good("Z1-c-gen-loop", (C, "FUNC func (c *Centroid) dataPointVecGenerator(", '''
func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
	next := 0
	return func() ([]float64, bool) {
		for next < len(c.DataPoints) {
			if c.DataPoints[next].Expired() {
				c.rmDataPoint(next)
				continue
			}
			vec := c.DataPoints[next].Vec
			next++
			return vec, true
		}
		return nil, false
	}
}
'''))
good("Z1-c-drainun-var", (C, "FUNC func (c *Centroid) DrainUnordered(", '''
func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
	res := make([]common.DataPoint, 0)
	for len(res) < n {
		if len(c.DataPoints) == 0 {
			break
		}
		dp := c.DataPoints[0]
		c.rmDataPoint(0)
		if dp.Expired() {
			continue
		}
		res = append(res, dp)
	}
	return res
}
'''))
good("Z1-c-drains-helper", (C, "	res := make([]common.DataPoint, 0)\n	// Furthest neigh.\n	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)\n	for _, index := range indexes {\n		res = append(res, c.DataPoints[index])\n	}\n	// Sorting because this method will remove datapoints at these indexes, and\n	// having things out of order can cause a rugpull (c.DataPoints index shift).\n	sort.Ints(indexes)\n	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.\n		c.rmDataPoint(indexes[i])\n	}\n	return res\n}", '''	// Furthest neigh.
	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
	res := c.pick(indexes)
	c.rmDataPoints(indexes)
	return res
}

// pick gets the datapoints at the indexes.
func (c *Centroid) pick(indexes []int) []common.DataPoint {
	res := make([]common.DataPoint, 0)
	for _, index := range indexes {
		res = append(res, c.DataPoints[index])
	}
	return res
}

// rmDataPoints removes the datapoints at the indexes, which get sorted.
func (c *Centroid) rmDataPoints(indexes []int) {
	sort.Ints(indexes)
	for i := len(indexes) - 1; i >= 0; i-- {
		c.rmDataPoint(indexes[i])
	}
}'''), (C, "FUNC func (c *Centroid) KNNLookup(", '''
func (c *Centroid) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
	res := c.pick(indexes)
	if drain {
		c.rmDataPoints(indexes)
	}
	return res
}
'''))
good("Z1-c-drain-reverse", (C, "	sort.Ints(indexes)\n	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.\n		c.rmDataPoint(indexes[i])\n	}\n", "	sort.Sort(sort.Reverse(sort.IntSlice(indexes)))\n	for _, index := range indexes {\n		c.rmDataPoint(index)\n	}\n"))
good("Z1-c-drain-prealloc", (C, "	res := make([]common.DataPoint, 0)\n	// Furthest neigh.\n	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)\n	for _, index := range indexes {\n		res = append(res, c.DataPoints[index])\n	}\n", "	// Furthest neigh.\n	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)\n	res := make([]common.DataPoint, len(indexes))\n	for i, index := range indexes {\n		res[i] = c.DataPoints[index]\n	}\n"))
good("Z1-c-expire-for", (C, "FUNC func (c *Centroid) Expire(", '''
func (c *Centroid) Expire() {
	for i := 0; i < len(c.DataPoints); {
		if !c.DataPoints[i].Expired() {
			i++
		} else {
			c.rmDataPoint(i)
		}
	}
}
'''))
good("Z1-c-expire-back", (C, "FUNC func (c *Centroid) Expire(", '''
func (c *Centroid) Expire() {
	for i := len(c.DataPoints) - 1; i >= 0; i-- {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
	}
}
'''))
good("Z1-c-expire-ptr", (C, "FUNC func (c *Centroid) Expire(", '''
func (c *Centroid) Expire() {
	i := 0
	for {
		if i >= len(c.DataPoints) {
			return
		}
		dp := &c.DataPoints[i]
		if dp.Expired() {
			c.rmDataPoint(i)
		} else {
			i++
		}
	}
}
'''))
good("Z1-c-memtrim-expire", (C, "FUNC func (c *Centroid) MemTrim(", '''
func (c *Centroid) MemTrim() {
	c.Expire()
	dps := make([]common.DataPoint, len(c.DataPoints))
	copy(dps, c.DataPoints)
	c.DataPoints = dps
	c.MoveVector()
}
'''))
good("Z1-c-memtrim-cond", (C, "	for len(c.DataPoints) > 0 {\n		dps = append(dps, c.DrainUnordered(1)...)\n	}", "	for c.LenDP() != 0 {\n		drained := c.DrainUnordered(1)\n		dps = append(dps, drained...)\n	}"))
good("Z1-c-move-early", (C, "FUNC func (c *Centroid) MoveVector(", '''
func (c *Centroid) MoveVector() bool {
	gen := c.dataPointVecGenerator()
	vec, ok := mathutils.VecMean(gen)
	if !ok {
		return false
	}
	c.vec = vec
	return true
}
'''))
good("Z1-c-distri", (C, "FUNC func (c *Centroid) DistributeDataPoints(", '''
func (c *Centroid) DistributeDataPoints(n int, receivers []common.DataPointReceiver) {
	if len(receivers) == 0 {
		return
	}
	for _, dp := range c.DrainOrdered(n) {
		if !c.giveAway(dp, receivers) {
			c.AddDataPoint(dp)
		}
	}
}

// giveAway adds dp to the nearest receiver.
func (c *Centroid) giveAway(dp common.DataPoint, receivers []common.DataPointReceiver) bool {
	i := 0
	generator := func() ([]float64, bool) {
		if i == len(receivers) {
			return nil, false
		}
		vec := receivers[i].Vec()
		i++
		return vec, true
	}
	indexes := c.knnSearchFunc(dp.Vec, generator, 1)
	if len(indexes) == 0 {
		return false
	}
	return receivers[indexes[0]].AddDataPoint(dp)
}
'''))
good("Z1-c-distri-range", (C, "	for j := 0; j < len(data); j++ {\n		i = 0 // Reset generator.\n		indexes := c.knnSearchFunc(data[j].Vec, generator, 1)\n		// Put back into self if (1) search failed or (2) adder failed to add.\n		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {\n			c.AddDataPoint(data[j])\n		}\n	}", "	for _, dp := range data {\n		i = 0 // Reset generator.\n		added := false\n		if indexes := c.knnSearchFunc(dp.Vec, generator, 1); len(indexes) > 0 {\n			receiver := receivers[indexes[0]]\n			added = receiver.AddDataPoint(dp)\n		}\n		if !added {\n			c.AddDataPoint(dp)\n		}\n	}"))

M = "pkg/kmeans/centroidmanager/cmanager.go"
good("Z1-m-new-copy", (M, "	for i, v := range args.InitVec {\n		cm.vec[i] = v\n	}\n	return cm, true", "	copy(cm.vec, args.InitVec)\n	return cm, true"))
good("Z1-m-newcentroid-direct", (M, "	v := make([]float64, len(vec))\n	copy(v, vec)\n	args := centroid.NewCentroidArgs{\n		InitVec:       v,", "	args := centroid.NewCentroidArgs{\n		InitVec:       vec,"))
good("Z1-m-portions", (M, "FUNC func (cm *CentroidManager) centroidDataPointPortions(", '''
func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
	portions := make(map[int]int)
	assigned := 0
	changed := true
	for changed && assigned < n {
		changed = false
		for i, c := range cm.Centroids {
			if assigned >= n {
				break
			}
			if portions[i] < c.LenDP() {
				portions[i]++
				assigned++
				changed = true
			}
		}
	}
	return portions
}
'''))
good("Z1-m-portions-min", (M, "			v, _ := portions[i]\n", "			v := portions[i]\n"), (M, "	if n <= 0 {\n		return portions\n	}\n", "	if n < 1 {\n		return portions\n	}\n"))
good("Z1-m-gen", (M, "FUNC func (cm *CentroidManager) centroidVecGenerator(", '''
func (cm *CentroidManager) centroidVecGenerator() func() ([]float64, bool) {
	next := 0
	return func() ([]float64, bool) {
		if next < len(cm.Centroids) {
			c := cm.Centroids[next]
			next++
			return c.Vec(), true
		}
		return nil, false
	}
}
'''))
good("Z1-m-splitcentroid", (M, "FUNC func (cm *CentroidManager) splitCentroid(", '''
func (cm *CentroidManager) splitCentroid(atIndex, trimN int) (*centroid.Centroid, bool) {
	if trimN <= 0 {
		return nil, false
	}
	if atIndex < 0 || len(cm.Centroids) <= atIndex {
		return nil, false
	}
	oldCentroid := cm.Centroids[atIndex]
	newCentroid := cm.newCentroid(oldCentroid.Vec())
	for _, dp := range oldCentroid.DrainUnordered(trimN) {
		newCentroid.AddDataPoint(dp)
	}
	return newCentroid, true
}
'''))
good("Z1-m-prep", (M, "FUNC func (cm *CentroidManager) prepVecUpdate(", '''
func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
	oldVec := append([]float64{}, v1...)
	return func(v2 []float64) {
		n := float64(len(cm.Centroids))
		sum := mathutils.VecMulScalar(cm.vec, n)
		sum, _ = mathutils.VecSub(sum, oldVec)
		sum, _ = mathutils.VecAdd(sum, v2)
		cm.vec = mathutils.VecDivScalar(sum, n)
	}
}
'''))
good("Z1-m-sync-early", (M, "FUNC func (cm *CentroidManager) syncVec(", '''
func (cm *CentroidManager) syncVec() {
	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())
	if !ok {
		return
	}
	cm.vec = vec
}
'''))
good("Z1-m-move-sync", (M, "FUNC func (cm *CentroidManager) syncVec(", '''
func (cm *CentroidManager) syncVec() bool {
	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())
	if ok {
		cm.vec = vec
	}
	return ok
}
'''), (M, "	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())\n	if ok {\n		cm.vec = vec\n	}\n	return ok\n}\n\n// DistributeDataPoints will", "	return cm.syncVec()\n}\n\n// DistributeDataPoints will"))
good("Z1-m-add-helpers", (M, "	// Add first centroid.\n	if len(cm.Centroids) == 0 {\n		c := cm.newCentroid(dp.Vec)\n		if !c.AddDataPoint(dp) {\n			return false\n		}\n		cm.Centroids = append(cm.Centroids, c)\n		cm.vec = c.Vec()\n		return true\n	}\n", "	if len(cm.Centroids) == 0 {\n		return cm.addFirst(dp)\n	}\n"), (M, "// DrainUnordered drains max", '''// addFirst puts dp into a new centroid.
func (cm *CentroidManager) addFirst(dp common.DataPoint) bool {
	c := cm.newCentroid(dp.Vec)
	if ok := c.AddDataPoint(dp); !ok {
		return false
	}
	cm.vec = c.Vec()
	cm.Centroids = append(cm.Centroids, c)
	return true
}

// DrainUnordered drains max'''))
good("Z1-m-add-split-helper", (M, "	// Potential centroid split.\n	if centroid.LenDP() >= cm.centroidDPThreshold {\n		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)\n		if splitOK {\n			cm.Centroids = append(cm.Centroids, newCentroid)\n			cm.syncVec()\n		}\n	}\n	return true\n}", '''	cm.trySplit(indexes[0])
	return true
}

// trySplit splits a centroid that is too big.
func (cm *CentroidManager) trySplit(index int) {
	if cm.Centroids[index].LenDP() < cm.centroidDPThreshold {
		return
	}
	created, ok := cm.splitCentroid(index, cm.centroidDPThreshold/2)
	if !ok {
		return
	}
	cm.Centroids = append(cm.Centroids, created)
	cm.syncVec()
}'''))
good("Z1-m-add-nearest-helper", (M, "	// Try find nearest centroid.\n	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)\n	if len(indexes) == 0 {\n		return false\n	}\n\n	// Try add to nearest centroid.\n	centroid := cm.Centroids[indexes[0]]          // Abbreviation.\n", "	index, found := cm.nearestIndex(dp.Vec)\n	if !found {\n		return false\n	}\n	centroid := cm.Centroids[index]\n"), (M, "cm.splitCentroid(indexes[0], ", "cm.splitCentroid(index, "), (M, "// DrainUnordered drains max", '''// nearestIndex finds the index of the centroid nearest vec.
func (cm *CentroidManager) nearestIndex(vec []float64) (int, bool) {
	indexes := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), 1)
	if len(indexes) == 0 {
		return 0, false
	}
	return indexes[0], true
}

// DrainUnordered drains max'''))
good("Z1-m-drain-shared", (M, "FUNC func (cm *CentroidManager) DrainUnordered(", '''
func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
	return cm.drain(n, func(c *centroid.Centroid, portion int) []common.DataPoint {
		return c.DrainUnordered(portion)
	})
}

func (cm *CentroidManager) drain(n int, f func(*centroid.Centroid, int) []common.DataPoint) []common.DataPoint {
	res := make([]common.DataPoint, 0)
	for i, portion := range cm.centroidDataPointPortions(n) {
		c := cm.Centroids[i]
		updateVec := cm.prepVecUpdate(c.Vec())
		res = append(res, f(c, portion)...)
		updateVec(c.Vec())
	}
	return res
}
'''), (M, "FUNC func (cm *CentroidManager) DrainOrdered(", '''
func (cm *CentroidManager) DrainOrdered(n int) []common.DataPoint {
	return cm.drain(n, func(c *centroid.Centroid, portion int) []common.DataPoint {
		return c.DrainOrdered(portion)
	})
}
'''))
good("Z1-m-drain-wrap", (M, "FUNC func (cm *CentroidManager) Expire(", '''
func (cm *CentroidManager) Expire() {
	for i := range cm.Centroids {
		cm.tracked(cm.Centroids[i], func(c *centroid.Centroid) { c.Expire() })
	}
}

// tracked changes a centroid and adjusts the internal vec.
func (cm *CentroidManager) tracked(c *centroid.Centroid, f func(*centroid.Centroid)) {
	updateVec := cm.prepVecUpdate(c.Vec())
	f(c)
	updateVec(c.Vec())
}
'''))
good("Z1-m-expire-sync", (M, "FUNC func (cm *CentroidManager) Expire(", '''
func (cm *CentroidManager) Expire() {
	for _, c := range cm.Centroids {
		c.Expire()
	}
	cm.syncVec()
}
'''))
good("Z1-m-expire-defer", (M, "		updateVec := cm.prepVecUpdate(centroid.Vec())\n		centroid.Expire()\n		// Finalize internal vec update.\n		updateVec(centroid.Vec())\n", "		old := centroid.Vec()\n		update := cm.prepVecUpdate(old)\n		centroid.Expire()\n		current := centroid.Vec()\n		update(current)\n"))
good("Z1-m-lendp", (M, "FUNC func (cm *CentroidManager) LenDP(", '''
func (cm *CentroidManager) LenDP() (total int) {
	for i := 0; i < len(cm.Centroids); i++ {
		total += cm.Centroids[i].LenDP()
	}
	return
}
'''))
good("Z1-m-memtrim-skip", (M, "		if centroid.LenDP() != 0 {\n			centroids = append(centroids, centroid)\n		}\n", "		if centroid.LenDP() == 0 {\n			continue\n		}\n		centroids = append(centroids, centroid)\n"))
good("Z1-m-memtrim-twoloops", (M, "FUNC func (cm *CentroidManager) MemTrim(", '''
func (cm *CentroidManager) MemTrim() {
	for _, c := range cm.Centroids {
		c.MemTrim()
	}
	var used []*centroid.Centroid
	for _, c := range cm.Centroids {
		if c.LenDP() > 0 {
			used = append(used, c)
		}
	}
	cm.Centroids = used
	cm.syncVec()
}
'''))
good("Z1-m-move-index", (M, "	for _, centroid := range cm.Centroids {\n		centroid.MoveVector()\n	}\n", "	for i := 0; i < len(cm.Centroids); i++ {\n		cm.Centroids[i].MoveVector()\n	}\n"))
good("Z1-m-distri", (M, "FUNC func (cm *CentroidManager) DistributeDataPoints(", '''
func (cm *CentroidManager) DistributeDataPoints(n int, receivers dpReceivers) {
	if len(receivers) == 0 {
		return
	}
	portions := cm.centroidDataPointPortions(n)
	for i, portion := range portions {
		c := cm.Centroids[i]
		c.DistributeDataPoints(portion, receivers)
	}
	cm.MoveVector()
}
'''))
good("Z1-m-internal-append", (M, "	receivers := make([]common.DataPointReceiver, len(cm.Centroids))\n	for i, centroid := range cm.Centroids {\n		receivers[i] = centroid\n	}\n", "	receivers := make([]common.DataPointReceiver, 0, len(cm.Centroids))\n	for _, c := range cm.Centroids {\n		receivers = append(receivers, c)\n	}\n"))
good("Z1-m-knn", (M, "FUNC func (cm *CentroidManager) KNNLookup(", '''
func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
	res := make([]common.DataPoint, 0)
	order := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), len(cm.Centroids))
	for _, i := range order {
		missing := k - len(res)
		if missing <= 0 {
			break
		}
		c := cm.Centroids[i]
		updateVec := cm.prepVecUpdate(c.Vec())
		res = append(res, c.KNNLookup(vec, missing, drain)...)
		updateVec(c.Vec())
	}
	return res
}
'''))
good("Z1-m-knn-if", (M, '''			switch {
			// Keep adding to res until requirement is met.
			case len(res) < k:
				res = append(res, dp)

			// Requirement met and drain is on, so the dps iterated over
			// in this loop have to be added somewhere (back into centroid).
			case len(res) >= k && drain:
				centroid.AddDataPoint(dp)

			// Requirement met and drain is off, so no dps will be lost
			// if a break is done here.
			case len(res) >= k && !drain:
				break
			}
''', '''			if len(res) < k {
				res = append(res, dp)
			} else if drain {
				centroid.AddDataPoint(dp)
			}
'''))
good("Z1-m-nearest-helper", (M, "FUNC func (cm *CentroidManager) NearestCentroids(", '''
func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
	[]*centroid.Centroid, bool,
) {
	indexes := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), n)
	if len(indexes) == 0 {
		return nil, false
	}
	res := make([]*centroid.Centroid, len(indexes))
	for i, index := range indexes {
		res[i] = cm.Centroids[index]
	}
	if !drain {
		return res, true
	}
	sort.Ints(indexes)
	for i := len(indexes) - 1; i >= 0; i-- {
		cm.rmCentroid(indexes[i])
	}
	return res, true
}

// rmCentroid removes a centroid and adjusts the internal vec.
func (cm *CentroidManager) rmCentroid(index int) {
	count := len(cm.Centroids)
	if count > 1 { // guard 0 div error.
		sum := mathutils.VecMulScalar(cm.vec, float64(count))
		sum, _ = mathutils.VecSub(sum, cm.Centroids[index].Vec())
		cm.vec = mathutils.VecDivScalar(sum, float64(count-1))
	}
	cm.Centroids = append(cm.Centroids[:index], cm.Centroids[index+1:]...)
}
'''))
good("Z1-m-split", (M, "FUNC func (cm *CentroidManager) SplitCentroids(", '''
func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
	var created []*centroid.Centroid
	for i := range cm.Centroids {
		c := cm.Centroids[i]
		if split(c) {
			if half, ok := cm.splitCentroid(i, c.LenDP()/2); ok {
				created = append(created, half)
			}
		}
	}
	cm.Centroids = append(cm.Centroids, created...)
	cm.syncVec()
}
'''))
good("Z1-m-merge", (M, "FUNC func (cm *CentroidManager) MergeCentroids(", '''
func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
	merged := make(map[int]bool)
	for i, candidate := range cm.Centroids {
		if merged[i] {
			continue
		}
		if !merge(candidate) {
			continue
		}
		nearest := cm.knnSearchFunc(candidate.Vec(), cm.centroidVecGenerator(), len(cm.Centroids))
		for _, j := range nearest {
			if j == i || merged[j] {
				continue
			}
			merged[j] = true
			cm.pour(cm.Centroids[j], candidate)
			if !merge(candidate) {
				break
			}
		}
	}
	kept := make([]*centroid.Centroid, 0, len(cm.Centroids))
	for i, c := range cm.Centroids {
		if !merged[i] {
			kept = append(kept, c)
		}
	}
	cm.Centroids = kept
	cm.syncVec()
}

// pour moves all datapoints.
func (cm *CentroidManager) pour(from, to *centroid.Centroid) {
	for _, dp := range from.DrainUnordered(from.LenDP()) {
		to.AddDataPoint(dp)
	}
}
'''))
good("Z1-m-merge-cond", (M, "		if !merge(candidate) || delMarks[i] {\n			continue\n		}\n", "		if delMarks[i] {\n			continue\n		}\n		if ok := merge(candidate); !ok {\n			continue\n		}\n"), (M, "	for i := len(cm.Centroids) - 1; i > -1; i-- {\n		if delMarks[i] {\n			// Delete.\n			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)\n		}\n	}\n", "	last := len(cm.Centroids) - 1\n	for i := last; i >= 0; i-- {\n		if !delMarks[i] {\n			continue\n		}\n		cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)\n	}\n"))
