CE = 'pkg/kmeans/centroid/centroid.go'
CM = 'pkg/kmeans/centroidmanager/cmanager.go'
VT = 'pkg/mathutils/vectools.go'
RC = 'pkg/kmeans/rpc/client.go'
bad('P11-div-inplace', 'P11', (VT, '''func VecDivScalar(vec []float64, scalar float64) []float64 {
	res := make([]float64, len(vec))
''', '''func VecDivScalar(vec []float64, scalar float64) []float64 {
	res := vec
'''))
bad('P11-mul-one', 'P11', (VT, '''func VecMulScalar(vec []float64, scalar float64) []float64 {
''', '''func VecMulScalar(vec []float64, scalar float64) []float64 {
	if scalar == 1 {
		return vec
	}
'''))
bad('P11-add-inplace', 'P11', (VT, '''	res := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		res[i] = a[i] + b[i]
	}
	return res, true
''', '''	for i := 0; i < len(a); i++ {
		a[i] += b[i]
	}
	return a, true
'''))
bad('P11-mean-first', 'P11', (VT, '''	res := make([]float64, len(vec))
	copy(res, vec)

	n := 1.
''', '''	res := vec
	n := 1.
'''))
bad('P11-vec-alias', 'P11', (VT, '''	_vec := make([]float64, len(v))
	for i, x := range v {
		_vec[i] = x
	}
	return _vec
''', '''	return v
'''))
bad('P11-centroid-inplace', 'P11', (CE, '''	c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)
''', '''	n := float64(len(c.DataPoints))
	for i, x := range dp.Vec {
		c.vec[i] = (c.vec[i]*n + x) / (n + 1)
	}
'''))
bad('P11-reuse', 'P11', (CE, '''	vec, ok := mathutils.VecMean(c.dataPointVecGenerator())
	if ok {
		c.vec = vec
	}
''', '''	vec, ok := mathutils.VecMean(c.dataPointVecGenerator())
	if ok {
		if len(vec) == len(c.vec) {
			copy(c.vec, vec)
		} else {
			c.vec = vec
		}
	}
'''))
bad('P11-cm-reuse', 'P11', (CM, '''	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
		cm.vec = vec
	}
''', '''	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
		cm.vec = append(cm.vec[:0], vec...)
	}
'''))
bad('P11-append-shared', 'P11', (CM, '''	v := make([]float64, len(vec))
	copy(v, vec)
''', '''	v := append(vec, vec...)[:len(vec)]
'''))
bad('P11-write-late', 'P11', (CM, '''		cm.Centroids = append(cm.Centroids, c)
		cm.vec = c.Vec()
		return true
''', '''		cm.Centroids = append(cm.Centroids, c)
		v := make([]float64, len(dp.Vec))
		cm.vec = v
		for i, x := range c.Vec() {
			v[i] = x
		}
		return true
'''))
bad('P11-resp-reuse', 'P11', (RC, '''func (c *kmeansClient) NearestCentroidVec(vec []float64) []float64 {
	var resp []float64
''', '''func (c *kmeansClient) NearestCentroidVec(vec []float64) []float64 {
	resp := vec
'''))
good('P11-append-copy', (VT, '''	_vec := make([]float64, len(v))
	for i, x := range v {
		_vec[i] = x
	}
	return _vec
''', '''	return append(make([]float64, 0, len(v)), v...)
'''))
good('P11-div-copy', (VT, '''	res := make([]float64, len(vec))
	for i, v := range vec {
		res[i] = v / scalar
	}
	return res
''', '''	res := append([]float64{}, vec...)
	for i := range res {
		res[i] /= scalar
	}
	return res
'''))
good('P11-add-append', (VT, '''	res := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		res[i] = a[i] + b[i]
	}
	return res, true
''', '''	res := make([]float64, 0, len(a))
	for i, x := range a {
		res = append(res, x+b[i])
	}
	return res, true
'''))
good('P11-into-helper', (VT, '''	res := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		res[i] = a[i] + b[i]
	}
	return res, true
''', '''	res := make([]float64, len(a))
	addInto(res, a, b)
	return res, true
'''), (VT, '''// VecSub subtracts''', '''// addInto writes a+b to res.
func addInto(res, a, b []float64) {
	for i := range res {
		res[i] = a[i] + b[i]
	}
}

// VecSub subtracts'''))
good('P11-cm-literal', (CM, '''	cm := CentroidManager{
		vec:                 make([]float64, len(args.InitVec)),
''', '''	cm := CentroidManager{
		vec:                 append([]float64{}, args.InitVec...),
'''), (CM, '''	for i, v := range args.InitVec {
		cm.vec[i] = v
	}
''', ''))
