CE = 'pkg/kmeans/centroid/centroid.go'
RC = 'pkg/kmeans/rpc/client.go'
ADD = '''	c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)
'''
RM = '''		c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
		c.vec, _ = mathutils.VecSub(c.vec, dp.Vec)
		c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints)-1))
'''
RMFULL = '''	if len(c.DataPoints) > 1 { // guard 0 div error.
		dp := c.DataPoints[index]
''' + RM
bad('P12-add-after', "P12", (CE, ADD + '\n	c.DataPoints = append(c.DataPoints, dp)\n', '	c.DataPoints = append(c.DataPoints, dp)\n' + ADD))
bad('P12-add-n', "P12 P25", (CE, ADD, ADD.replace('float64(len(c.DataPoints))+1)', 'math.Max(1, float64(len(c.DataPoints))))')), (CE, 'import (\n', 'import (\n	"math"\n'))
bad('P12-add-nomul', "P12", (CE, ADD, ADD.replace('VecMulScalar(c.vec, float64(len(c.DataPoints)))', 'VecMulScalar(c.vec, float64(cap(c.DataPoints)))')))
bad('P12-rm-n', "P12", (CE, RM, RM.replace('-1))', '))')))
bad('P12-rm-guard2', "P12", (CE, 'if len(c.DataPoints) > 1 { // guard', 'if len(c.DataPoints) > 2 { // guard'))
bad('P12-rm-other', "P12", (CE, '		dp := c.DataPoints[index]\n', '		dp := c.DataPoints[len(c.DataPoints)-1]\n'))
bad('P12-rm-add', "P12", (CE, RM, RM.replace('VecSub', 'VecAdd')))
bad('P12-rm-late', "P12", (CE, '''	c.DataPoints = append(c.DataPoints[:index], c.DataPoints[index+1:]...)
''', ''), (CE, '''	if len(c.DataPoints) > 1 { // guard 0 div error.
		dp := c.DataPoints[index]
''', '''	c.DataPoints = append(c.DataPoints[:index], c.DataPoints[index+1:]...)
	if len(c.DataPoints) > 1 { // guard 0 div error.
		dp := c.DataPoints[0]
'''))
bad('P12-memtrim-nomove', "P12", (CE, '	c.DataPoints = dps\n	// The drain above left the vec of the last datapoint behind.\n	c.MoveVector()\n', '	c.DataPoints = dps\n'))
bad('P12-memtrim-move-first', "P12", (CE, '	c.DataPoints = dps\n	// The drain above left the vec of the last datapoint behind.\n	c.MoveVector()\n', '	c.MoveVector()\n	c.DataPoints = dps\n'))
bad('P12-drain-direct', "P12 P07 P09", (CE, '		c.rmDataPoint(0)\n', '		c.DataPoints = c.DataPoints[1:]\n'))
bad('P12-expire-direct', "P12", (CE, '''			c.rmDataPoint(i)
			continue
''', '''			c.DataPoints = append(c.DataPoints[:i], c.DataPoints[i+1:]...)
			continue
'''))
bad('P12-drain-keep-vec', "P12", (CE, '''	if drain {
		// Sorting because''', '''	if drain {
		old := c.vec
		defer func() {
			if len(c.DataPoints) == 0 {
				return
			}
			c.vec = old
		}()
		// Sorting because'''))
bad('P12-move-gen-skips', "P12 P18", (CE, '	i := 0\n	return func() ([]float64, bool) {', '	i := 0\n	if len(c.DataPoints) > 10000 {\n		i = 1\n	}\n	return func() ([]float64, bool) {'))
bad('P12-move-first-only', "P12", (CE, '''	if ok {
		c.vec = vec
	}
	return ok
''', '''	if ok {
		c.vec = mathutils.VecDivScalar(mathutils.VecMulScalar(vec, 2), 3)
	}
	return ok
'''))
bad('P12-client-no-move', "P12", (RC, '		newCentroid.MoveVector()\n', ''))

good('P12-add-order', (CE, ADD + '\n	c.DataPoints = append(c.DataPoints, dp)\n', '''	n := float64(len(c.DataPoints))
	c.DataPoints = append(c.DataPoints, dp)
	sum, _ := mathutils.VecAdd(mathutils.VecMulScalar(c.vec, n), dp.Vec)
	c.vec = mathutils.VecDivScalar(sum, n+1)
'''))
good('P12-add-len1', (CE, ADD, '''	n := len(c.DataPoints)
	c.vec = mathutils.VecMulScalar(c.vec, float64(n))
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecMulScalar(c.vec, 1/float64(n+1))
'''))
good('P12-rm-helper', (CE, RMFULL + '	}\n', '	c.forget(c.DataPoints[index].Vec)\n'), (CE, '// Expire tries', '// Expire tries') if False else (CE, 'func (c *Centroid) LenDP() int', '''func (c *Centroid) forget(v []float64) {
	n := len(c.DataPoints)
	if n <= 1 {
		return
	}
	sum := mathutils.VecMulScalar(c.vec, float64(n))
	if rest, ok := mathutils.VecSub(sum, v); ok {
		c.vec = mathutils.VecDivScalar(rest, float64(n-1))
	}
}

func (c *Centroid) LenDP() int'''))
good('P12-rm-incremental', (CE, RM, '''		n := float64(len(c.DataPoints))
		diff, _ := mathutils.VecSub(c.vec, dp.Vec)
		c.vec, _ = mathutils.VecAdd(c.vec, mathutils.VecDivScalar(diff, n-1))
'''))
good('P12-rm-copy', (CE, '	c.DataPoints = append(c.DataPoints[:index], c.DataPoints[index+1:]...)\n', '	copy(c.DataPoints[index:], c.DataPoints[index+1:])\n	c.DataPoints = c.DataPoints[:len(c.DataPoints)-1]\n'))
good('P12-expire-backwards', (CE, '''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''', '''	for i := len(c.DataPoints) - 1; i >= 0; i-- {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
	}
'''))
good('P12-expire-filter', (CE, '''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''', '''	kept := make([]common.DataPoint, 0, len(c.DataPoints))
	for _, dp := range c.DataPoints {
		if !dp.Expired() {
			kept = append(kept, dp)
		}
	}
	c.DataPoints = kept
	c.MoveVector()
'''))
good('P12-generator-inline', (CE, '''		for i < len(c.DataPoints) && c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
		if i >= len(c.DataPoints) {
			return nil, false
		}
		i++
		return c.DataPoints[i-1].Vec, true
''', '''		for i < len(c.DataPoints) {
			if c.DataPoints[i].Expired() {
				c.rmDataPoint(i)
				continue
			}
			vec := c.DataPoints[i].Vec
			i++
			return vec, true
		}
		return nil, false
'''))
