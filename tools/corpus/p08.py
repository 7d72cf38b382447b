CE = 'pkg/kmeans/centroid/centroid.go'
CM = 'pkg/kmeans/centroidmanager/cmanager.go'
DI = 'pkg/mathutils/distance.go'
VT = 'pkg/mathutils/vectools.go'
DEC = 'if len(dp.Vec) != len(c.vec) || dp.Expired() {'
bad('P08-noguard', 'P08', (CE, DEC, 'if dp.Expired() {'))
bad('P08-less', 'P08', (CE, DEC, 'if len(dp.Vec) < len(c.vec) || dp.Expired() {'))
bad('P08-empty-any', 'P08', (CE, DEC, 'if (len(dp.Vec) != len(c.vec) && len(c.DataPoints) > 0) || dp.Expired() {'))
bad('P08-refuse-empty', 'P08', (CE, DEC, 'if len(dp.Vec) != len(c.vec) || len(dp.Vec) == 0 || dp.Expired() {'))
bad('P08-euc', 'P08', (DI, '''func EuclideanDistance(v1, v2 []float64) (float64, error) {
	if len(v1) != len(v2) {''', '''func EuclideanDistance(v1, v2 []float64) (float64, error) {
	if len(v1) < len(v2) {'''))
bad('P08-euc-le', 'P08', (DI, '''	for i := 0; i < len(v1); i++ {
		r +=''', '''	for i := 0; i < len(v1) || i < 1; i++ {
		r +='''))
bad('P08-veceq', 'P08', (VT, '''	if len(v1) != len(v2) {
		return false
	}
''', '''	if len(v1) > len(v2)+1 {
		return false
	}
'''))
bad('P08-mean', 'P08', (VT, '''		if len(vec) != len(res) {
			return res, false
		}
''', '''		if len(vec) > len(res) {
			return res, false
		}
'''))
bad('P08-add', 'P08', (VT, '''func VecAdd(a, b []float64) ([]float64, bool) {
	if len(a) != len(b) {
		return nil, false
	}
''', '''func VecAdd(a, b []float64) ([]float64, bool) {
	if len(a) > len(b) {
		return nil, false
	}
'''))
bad('P08-cos', 'P08', (DI, '''	if len(vec1) != len(vec2) {
		return 0, errors''', '''	if len(vec1) != len(vec2) && len(vec2) != 0 {
		return 0, errors'''))
bad('P08-direct', 'P08', (CE, '''			c.AddDataPoint(data[j])
''', '''			c.addDataPoint(data[j])
			if v := receivers[0].Vec(); len(v) > 0 {
				c.vec = v
			}
'''))
good('P08-guards', (CE, DEC + '''
		return false
	}
	c.addDataPoint(dp)
	return true
''', '''if len(c.vec) != len(dp.Vec) {
		return false
	}
	if dp.Expired() {
		return false
	}
	c.addDataPoint(dp)
	return true
'''))
good('P08-positive', (CE, DEC + '''
		return false
	}
	c.addDataPoint(dp)
	return true
''', '''if fits := len(dp.Vec) == len(c.vec); fits && !dp.Expired() {
		c.addDataPoint(dp)
		return true
	}
	return false
'''))
good('P08-helper', (CE, DEC, 'if !c.fits(dp) {'), (CE, '''func (c *Centroid) rmDataPoint(index int) {''', '''func (c *Centroid) fits(dp common.DataPoint) bool {
	return len(dp.Vec) == len(c.vec) && !dp.Expired()
}

func (c *Centroid) rmDataPoint(index int) {'''))
good('P08-range', (DI, '''	for i := 0; i < len(v1); i++ {
		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
	}
''', '''	for i, x := range v1 {
		d := x - v2[i]
		r += d * d
	}
'''))
good('P08-back', (DI, '''	for i := 0; i < len(v1); i++ {
		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
	}
''', '''	for i := len(v1) - 1; i >= 0; i-- {
		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
	}
'''))
good('P08-n', (DI, '''	if len(v1) != len(v2) {
		return 0, errors.New("distance measurement attempt failed: vectors are of different lengths")
	}
	var r float64
	for i := 0; i < len(v1); i++ {
''', '''	n := len(v1)
	if n != len(v2) {
		return 0, errors.New("distance measurement attempt failed: vectors are of different lengths")
	}
	var r float64
	for i := 0; i < n; i++ {
'''))
good('P08-memtrim-filter', (CE, '''	for len(c.DataPoints) > 0 {
		dps = append(dps, c.DrainUnordered(1)...)
	}
''', '''	for _, dp := range c.DataPoints {
		if !dp.Expired() {
			dps = append(dps, dp)
		}
	}
'''))
