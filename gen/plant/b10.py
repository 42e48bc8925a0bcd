exec(open('/tmp/mk/b2.py').read().split("bug('new-types")[0])
HDF='netcdf/hdf5/hdf5.go'
PRE='''
package hdf5

import (
	"fmt"
	"os"
	"os/exec"
	"testing"
)
'''
def demo(cdl,name,cases):
    return PRE+NCGEN+'''
func TestZZDemo(t *testing.T) {
	f := ncgen(t, "nc4", `%s`)
	nc, err := Open(f)
	if err != nil {
		t.Fatal(err)
	}
	defer nc.Close()
	vg, err := nc.GetVarGetter("%s")
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range []struct {
		begin, end int64
		want       string
	}{%s} {
		v, err := vg.GetSlice(c.begin, c.end)
		if err != nil {
			t.Fatal(c, err)
		}
		if fmt.Sprint(v) != c.want {
			t.Fatal(c, v)
		}
	}
}
'''%(cdl,name,cases)
bug('chunk-pruned','H07',[(HDF,'high = low + numberOfElements*dtSize','high = low + numberOfElements')],'netcdf/hdf5',
demo('''netcdf f {
dimensions: x = 8 ;
variables: int v(x) ; v:_ChunkSizes = 4 ;
data: v = 1, 2, 3, 4, 5, 6, 7, 8 ;
}''','v','{0, 8, "[1 2 3 4 5 6 7 8]"}, {2, 7, "[3 4 5 6 7]"}, {4, 8, "[5 6 7 8]"}'),
'a slice that begins in the second half of a chunk','the range a chunk covers is counted in elements and not in bytes, so the chunk in which a slice begins is taken to end before it, and fill values are read')
bug('slice-inside-chunk','H07',[(HDF,'				skip(bf, int64(skipBegin))','				skip(bf, int64(skipBegin+skipEnd))')],'netcdf/hdf5',
demo('''netcdf f {
dimensions: x = 8 ;
variables: int v(x) ; v:_ChunkSizes = 8 ; v:_DeflateLevel = 1 ;
data: v = 1, 2, 3, 4, 5, 6, 7, 8 ;
}''','v','{0, 8, "[1 2 3 4 5 6 7 8]"}, {2, 8, "[3 4 5 6 7 8]"}, {0, 3, "[1 2 3]"}, {2, 5, "[3 4 5]"}'),
'a slice of compressed data that begins and ends inside of one chunk','what follows the slice in the chunk is skipped in front of it')
