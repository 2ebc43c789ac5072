package PKG

import "strconv"

type vLegacyFile struct {
	name      string
	size, num float64
	in        bool
}

// vhLegacyCache: any history of requests of files that fit the cache, each stored or not.
func vhLegacyCache() {
	n := int(vConf("files"))
	c := SimCache{MaxSize: 100}
	c.Init()
	var fs []*vLegacyFile
	for i := 0; i < n; i++ {
		fs = append(fs, &vLegacyFile{name: "file" + strconv.Itoa(i), size: vFloat("size", 1, 100, 2)})
	}
	for i := 0; i < int(vConf("requests")); i++ {
		f := fs[vChoice("file", n)]
		size, num, value := c.UpdateStats(f.name, f.size)
		f.num++
		vAssert(size == f.size, "the size of the file")
		vAssert(num == f.num, "the number of its requests")
		vAssert(value == f.size*f.num, "the value of the file")
		s := c.GetStats(f.name)
		vAssert(s.Size == f.size && s.NumReq == f.num && s.Value == value, "the statistics of the file")
		name, min := c.GetMinValue()
		found := false
		for _, g := range fs {
			if g.in {
				vAssert(min <= g.size*g.num, "no stored file has a lower value than the minimum")
				if g.name == name {
					found = true
					vAssert(min == g.size*g.num, "the minimum is the value of its file")
				}
			}
		}
		before := 0.0
		cached := 0
		for _, g := range fs {
			if g.in {
				cached++
				before += g.size
			}
		}
		vAssert(found == (cached > 0), "the minimum is that of a stored file")
		if vBool("store") {
			c.Insert(f.name, f.size)
			vCover("stored")
			_, ok := c.files[f.name]
			vAssert(ok, "a stored file is in the cache")
			worst, gone := -1.0, false
			for _, g := range fs {
				if _, ok := c.files[g.name]; g.in && !ok {
					gone = true
					vCover("removed")
					worst = vIteF(g.size*g.num > worst, g.size*g.num, worst)
					g.in = false
				}
			}
			vAssert(!gone || before+f.size > 100, "files are removed only for lack of space")
			for _, g := range fs {
				if g.in && g != f {
					vAssert(vImp(gone, worst <= g.size*g.num), "the files of the lowest values are removed")
				}
			}
			f.in = true
		}
		total, points := 0.0, 0.0
		k := 0
		for _, g := range fs {
			_, ok := c.files[g.name]
			vAssert(ok == g.in, "only stored files are in the cache")
			if g.in {
				k++
				total += g.size
				points += g.size * g.num
			}
		}
		vAssert(len(c.files) == k, "only stored files are in the cache")
		vAssert(c.GetSize() == total, "the size is the sum of the stored files")
		vAssert(total <= 100, "the size is within the limit")
		d := c.GetCapacity() - total // the limit is 100
		vAssert(vAnd(d < 1e-6, d > -1e-6), "the capacity is the share of the size")
		vAssert(c.GetPoints() == points, "the points of the stored files")
	}
	vObserve("requests", int64(fs[0].num))
}
