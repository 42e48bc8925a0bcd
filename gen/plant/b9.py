exec(open('/tmp/mk/b2.py').read().split("bug('new-types")[0])

bug('table-step','C07',[(CDF,'''			v := data.([]uint32)
			ret := make([][]uint32, dimLengths[0])
			for i := range int(dimLengths[0]) {
				ret[i] = v[:dimLengths[1]]
				v = v[dimLengths[1]:]
			}
''','''			v := data.([]uint32)
			ret := make([][]uint32, dimLengths[0])
			for i := range int(dimLengths[0]) {
				ret[i] = v[:dimLengths[1]]
				v = v[dimLengths[0]:]
			}
''')],'netcdf/cdf','''
package cdf

import (
	"fmt"
	"os"
	"os/exec"
	"testing"
)
'''+NCGEN+'''
func TestZZDemo(t *testing.T) {
	f := ncgen(t, "cdf5", `netcdf f {
dimensions: x = 2 ; y = 1 ; z = 3 ;
variables: uint v(x, z) ; uint u(y, x, z) ;
data: v = 1, 2, 3, 4, 5, 6 ; u = 1, 2, 3, 4, 5, 6 ;
}`)
	nc, err := Open(f)
	if err != nil {
		t.Fatal(err)
	}
	defer nc.Close()
	for name, want := range map[string]string{"v": "[[1 2 3] [4 5 6]]", "u": "[[[1 2 3] [4 5 6]]]"} {
		v, err := nc.GetVariable(name)
		if err != nil {
			t.Fatal(err)
		}
		if fmt.Sprint(v.Values) != want {
			t.Fatal(name, v.Values)
		}
	}
}
''','a variable of type uint with two dimensions of different lengths','rows of uint tables begin at the wrong element')
