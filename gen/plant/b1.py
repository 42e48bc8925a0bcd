exec(open('/tmp/mk/mk.py').read())
CDF='netcdf/cdf/cdf.go'; CW='netcdf/cdf/cdfwriter.go'; HR='netcdf/hdf5/hdf5.go'; HW='netcdf/hdf5/hdf5writer.go'
NCGEN='''
func ncgen(t *testing.T, kind, cdl string) string {
	dir := t.TempDir()
	in := dir + "/f.cdl"
	out := dir + "/f.nc"
	if err := os.WriteFile(in, []byte(cdl), 0o644); err != nil {
		t.Fatal(err)
	}
	if b, err := exec.Command("ncgen", "-b", "-k", kind, "-o", out, in).CombinedOutput(); err != nil {
		t.Fatal(err, string(b))
	}
	return out
}
'''
bug('cdf-record-ushort','C01',[(CDF,'''		case typeByte, typeUByte, typeChar:
			break
		case typeShort, typeUShort:
			n *= 2''','''		case typeByte, typeUByte, typeChar, typeUShort:
			break
		case typeShort:
			n *= 2''')],'netcdf/cdf','''
package cdf

import (
	"os"
	"os/exec"
	"reflect"
	"testing"
)
'''+NCGEN+'''
func TestZZDemo(t *testing.T) {
	f := ncgen(t, "cdf5", `netcdf f {
dimensions: t = UNLIMITED ; x = 3 ;
variables: ushort u(t, x) ; int i(t) ;
data: u = 1, 2, 3, 4, 5, 60000 ; i = 7, 8 ;
}`)
	nc, err := Open(f)
	if err != nil {
		t.Fatal(err)
	}
	defer nc.Close()
	v, err := nc.GetVariable("u")
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(v.Values, [][]uint16{{1, 2, 3}, {4, 5, 60000}}) {
		t.Fatal(v.Values)
	}
}
''','a version 5 file with an unlimited dimension, at least two record variables, one of them unsigned short, and more than one record','the element size of unsigned shorts in record variables')

bug('name-with-newline','A05',[('internal/validname.go','`^[\\pL\\pN][^\\pC/]*$`','`(?m)^[\\pL\\pN][^\\pC/]*$`')],'internal','''
package internal

import "testing"

func TestZZDemo(t *testing.T) {
	for _, bad := range []string{"a\\nb", "x\\n", "a\\n/b"} {
		if IsValidNetCDFName(bad) {
			t.Errorf("%q accepted", bad)
		}
	}
	if !IsValidNetCDFName("a.b-c d") {
		t.Error("ordinary name rejected")
	}
}
''','a name with a line feed in it, everything before which is valid','names with control characters are accepted')

bug('continuation-unchecked','H01',[(HR,'''			checkZeroes(bf, int(gap))
		}
		h5.checkChecksum(offset, int(size)-4)
	}
''','''			checkZeroes(bf, int(gap))
			h5.checkChecksum(offset, int(size)-4)
		}
	}
''')],'netcdf/hdf5','''
package hdf5

import (
	"bytes"
	"encoding/binary"
	"os"
	"os/exec"
	"testing"
)
'''+NCGEN+'''
func TestZZDemo(t *testing.T) {
	f := ncgen(t, "nc4", `netcdf f {
dimensions: x = 3 ;
variables: int v(x) ;
 v:a = "aaaaaaaaaaaaaaaaaaaaaaaaaaaa" ; v:b = "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb" ; v:c = "cccccccccccccccccccccccccccccccc" ; v:d = "ddddddddddddddddddddddd" ; v:e = "eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee" ; v:f = "ffffffffffffffffffffffffffff" ;
data: v = 1, 2, 3 ;
}`)
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	// damage the checksum of each continuation block, found by the message that refers to it
	done := 0
	for o := 0; o+4 < len(b); o++ {
		if string(b[o:o+4]) != "OCHK" {
			continue
		}
		addr := binary.LittleEndian.AppendUint64(nil, uint64(o))
		i := bytes.Index(b, addr)
		if i < 0 {
			continue
		}
		end := o + int(binary.LittleEndian.Uint64(b[i+8:]))
		c := bytes.Clone(b)
		c[end-1] ^= 2
		g := f + ".bad"
		if err := os.WriteFile(g, c, 0o644); err != nil {
			t.Fatal(err)
		}
		done++
		nc, err := Open(g)
		if err != nil {
			continue
		}
		_, err = nc.GetVariable("v")
		nc.Close()
		if err == nil {
			t.Errorf("damaged continuation block at %d accepted", o)
		}
	}
	if done == 0 {
		t.Fatal("no continuation block")
	}
}
''','a damaged continuation block of an object header that has no gap at its end','the checksum of continuation blocks is only compared when there is a gap')

bug('cdf-attributes-kept','A07',[(CW,'''	if !hasValidNames(attrs) {
		return ErrInvalidName
	}
	cw.globalAttrs = attrs
	return nil''','''	cw.globalAttrs = attrs
	if !hasValidNames(cw.globalAttrs) {
		return ErrInvalidName
	}
	return nil''')],'netcdf/cdf','''
package cdf

import (
	"testing"

	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/f.nc"
	w, err := OpenWriter(f)
	if err != nil {
		t.Fatal(err)
	}
	good, _ := util.NewOrderedMap([]string{"a"}, map[string]any{"a": "x"})
	bad, _ := util.NewOrderedMap([]string{"b", "c/d"}, map[string]any{"b": "y", "c/d": "z"})
	if err := w.AddAttributes(good); err != nil {
		t.Fatal(err)
	}
	if err := w.AddAttributes(bad); err == nil {
		t.Fatal("accepted")
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	nc, err := Open(f)
	if err != nil {
		t.Fatal(err)
	}
	defer nc.Close()
	keys := nc.Attributes().Keys()
	if len(keys) != 1 || keys[0] != "a" {
		t.Fatal(keys)
	}
}
''','a rejected attribute list, then closing the file and reading it back','a rejected attribute list replaces the earlier one')

bug('cdf-truncated-records','A03',[(CDF,'''		err := binary.Read(bf, binary.BigEndian, data)
		if err != nil {
			return nil, err
		}''','''		err := binary.Read(bf, binary.BigEndian, data)
		if err != nil && err != io.ErrUnexpectedEOF {
			return nil, err
		}''')],'netcdf/cdf','''
package cdf

import (
	"os"
	"os/exec"
	"testing"
)
'''+NCGEN+'''
func TestZZDemo(t *testing.T) {
	f := ncgen(t, "classic", `netcdf f {
dimensions: t = UNLIMITED ;
variables: int u(t) ; int i(t) ;
data: u = 1, 2, 3, 4 ; i = 7, 8, 9, 10 ;
}`)
	st, err := os.Stat(f)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Truncate(f, st.Size()-6); err != nil {
		t.Fatal(err)
	}
	nc, err := Open(f)
	if err != nil {
		return
	}
	defer nc.Close()
	v, err := nc.GetVariable("i")
	if err == nil {
		t.Fatal("truncated data read as", v.Values)
	}
}
''','a record variable in a file that ends in the middle of a record','a read that fails in the middle is reported as success')
