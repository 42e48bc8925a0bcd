exec(open('/tmp/mk/mk.py').read())
CDF='netcdf/cdf/cdf.go'; CW='netcdf/cdf/cdfwriter.go'; HR='netcdf/hdf5/hdf5.go'; HW='netcdf/hdf5/hdf5writer.go'
NCGEN='''
func ncgen(t *testing.T, kind, cdl string) string {
	dir := t.TempDir()
	in := dir + "/f.cdl"
	out := dir + "/f.nc"
	if err := os.WriteFile(in, []byte(cdl), 0o644); err != nil {
		t.Fatal(err)
	}
	if b, err := exec.Command("ncgen", "-k", kind, "-o", out, in).CombinedOutput(); err != nil {
		t.Fatal(err, string(b))
	}
	return out
}
'''
bug('new-types-in-version-two','C06',[(CDF,'''	assert(cdf.version >= uint8(requiredVersion),
''','''	assert(cdf.version > 1,
''')],'netcdf/cdf','''
package cdf

import (
	"bytes"
	"os"
	"os/exec"
	"testing"
)
'''+NCGEN+'''
func TestZZDemo(t *testing.T) {
	f := ncgen(t, "64-bit offset", `netcdf f {
variables: int v ;
  :att = 5 ;
data: v = 1 ;
}`)
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	// The attribute: name, padding, type, count, value.
	old := []byte("att\\x00\\x00\\x00\\x00\\x04\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x05")
	if !bytes.Contains(b, old) {
		t.Fatal("no attribute")
	}
	bad := append([]byte(nil), old...)
	bad[7] = 9 // unsigned int, which only version 5 has
	if err := os.WriteFile(f, bytes.Replace(b, old, bad, 1), 0o644); err != nil {
		t.Fatal(err)
	}
	nc, err := Open(f)
	if err == nil {
		nc.Close()
		t.Fatal("accepted")
	}
}
''','a damaged file of version 2 with a type code of version 5','type codes that only version 5 has are accepted in files of version 2')

bug('attribute-name-runes','C05',[(CW,'''		count += int64(len(k))
''','''		count += int64(utf8.RuneCountInString(k))
'''),(CW,'''import (
''','''import (
	"unicode/utf8"
''')],'netcdf/cdf','''
package cdf

import (
	"reflect"
	"testing"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/f.nc"
	cw, err := OpenWriter(f)
	if err != nil {
		t.Fatal(err)
	}
	// Four letters of two bytes each.
	at, err := util.NewOrderedMap([]string{"\\u00e4\\u00f6\\u00fc\\u00e9"}, map[string]any{"\\u00e4\\u00f6\\u00fc\\u00e9": "x"})
	if err != nil {
		t.Fatal(err)
	}
	if err = cw.AddVar("v", api.Variable{Values: []int32{1, 2, 3}, Dimensions: []string{"x"}, Attributes: at}); err != nil {
		t.Fatal(err)
	}
	if err = cw.Close(); err != nil {
		t.Fatal(err)
	}
	nc, err := Open(f)
	if err != nil {
		t.Fatal(err)
	}
	defer nc.Close()
	v, err := nc.GetVariable("v")
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(v.Values, []int32{1, 2, 3}) {
		t.Fatal(v.Values)
	}
}
''','an attribute whose name has letters outside of ASCII, enough of them that the padding does not hide the difference','the size of the header, hence the offsets of the data, with non-ASCII attribute names')

bug('string-length-runes','W06',[(HW,'''			util.MustWriteLE(hw.buf, uint32(len(str)))
			util.MustWriteLE(hw.buf, hw.heap.addr)
''','''			util.MustWriteLE(hw.buf, uint32(len([]rune(str))))
			util.MustWriteLE(hw.buf, hw.heap.addr)
''')],'netcdf/hdf5','''
package hdf5

import (
	"os/exec"
	"strings"
	"testing"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/f.nc"
	cw, err := OpenWriter(f)
	if err != nil {
		t.Fatal(err)
	}
	s := "\\u00e4\\u00f6\\u00fc\\u00e9xyz"
	if err = cw.AddVar("v", api.Variable{Values: []string{"abc", s}, Dimensions: []string{"x"}}); err != nil {
		t.Fatal(err)
	}
	if err = cw.Close(); err != nil {
		t.Fatal(err)
	}
	out, err := exec.Command("ncdump", f).CombinedOutput()
	if err == nil && !strings.Contains(string(out), s) {
		t.Fatal(string(out))
	}
	nc, err := Open(f)
	if err != nil {
		t.Fatal(err)
	}
	defer nc.Close()
	v, err := nc.GetVariable("v")
	if err != nil {
		t.Fatal(err)
	}
	got, ok := v.Values.([]string)
	if !ok || len(got) != 2 || got[0] != "abc" || got[1] != s {
		t.Fatalf("%q", v.Values)
	}
}
''','a list of strings with a letter outside of ASCII','the length in the reference to a string in the heap')

bug('groups-unsorted','A08',[(HW,'''			groupNames = append(groupNames, name)
		}
		slices.Sort(groupNames)
''','''			groupNames = append(groupNames, name)
		}
''')],'netcdf/hdf5','''
package hdf5

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func TestZZDemo(t *testing.T) {
	var first []byte
	for range 40 {
		f := t.TempDir() + "/f.nc"
		cw, err := OpenWriter(f)
		if err != nil {
			t.Fatal(err)
		}
		for i := range 4 {
			g, err := cw.CreateGroup(fmt.Sprint("g", i))
			if err != nil {
				t.Fatal(err)
			}
			if err = g.AddVar("v", api.Variable{Values: make([]int32, i+2), Dimensions: []string{fmt.Sprint("d", i)}}); err != nil {
				t.Fatal(err)
			}
		}
		if err = cw.Close(); err != nil {
			t.Fatal(err)
		}
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		if first == nil {
			first = b
		}
		if !bytes.Equal(first, b) {
			t.Fatal("the same calls give different files")
		}
	}
}
''','a file with dimensions in more than one subgroup, written twice','the numbers of the dimensions depend on the order in which a map is traversed')

bug('pipeline-version','H03',[(HR,'''	assert(version >= 1 && version <= 2, "pipeline versin")
''','''	assert(version >= 1, "pipeline versin")
''')],'netcdf/hdf5','''
package hdf5

import (
	"bytes"
	"testing"

	"github.com/batchatco/go-thrower"
)

func TestZZDemo(t *testing.T) {
	for version := byte(1); version < 6; version++ {
		err := func() (err error) {
			defer thrower.RecoverError(&err)
			b := []byte{version, 0, 0, 0, 0, 0, 0, 0}
			if version > 1 {
				b = b[:2]
			}
			new(HDF5).readFilterPipeline(newObject(), newResetReader(bytes.NewReader(b), int64(len(b))))
			return nil
		}()
		if (err == nil) != (version <= 2) {
			t.Errorf("version %d: %v", version, err)
		}
	}
}
''','a file with a filter pipeline message of a later version','unknown versions of the filter pipeline message are taken for version 2')

bug('optional-filters-skipped','H04',[(HR,'''		case filterDeflate, filterShuffle, filterFletcher32:

		default:
			thrower.Throw(ErrUnsupportedFilter)
''','''		case filterDeflate, filterShuffle, filterFletcher32:

		default:
			if flags&1 == 0 {
				thrower.Throw(ErrUnsupportedFilter)
			}
			continue // the filter is optional
''')],'netcdf/hdf5','''
package hdf5

import (
	"bytes"
	"testing"

	"github.com/batchatco/go-thrower"
)

func TestZZDemo(t *testing.T) {
	for _, flags := range []byte{0, 1} {
		for _, kind := range []byte{1, 2, 3, 4, 5, 6} {
			err := func() (err error) {
				defer thrower.RecoverError(&err)
				b := []byte{2, 1, kind, 0, flags, 0, 1, 0, 4, 0, 0, 0}
				new(HDF5).readFilterPipeline(newObject(), newResetReader(bytes.NewReader(b), int64(len(b))))
				return nil
			}()
			if (err == nil) != (kind <= 3) {
				t.Errorf("filter %d flags %d: %v", kind, flags, err)
			}
		}
	}
}
''','a variable with a filter the reader does not have, such as szip or a registered one, that is marked as optional','chunks that went through an unknown filter are read as if they had not')

bug('filter-mask-order','H06',[(HR,"""			if (1<<uint(j))&val.filterMask != 0 {
				continue""","""			if (1<<uint(len(obj.filters)-1-j))&val.filterMask != 0 {
				continue""")],'netcdf/hdf5','''
package hdf5

import (
	"bytes"
	"encoding/binary"
	"os"
	"os/exec"
	"reflect"
	"testing"
)
'''+NCGEN+'''
func TestZZDemo(t *testing.T) {
	f := ncgen(t, "nc4", `netcdf f {
dimensions: x = 3 ;
variables: int v(x) ;
  v:_Storage = "chunked" ; v:_ChunkSizes = 3 ; v:_Shuffle = "true" ; v:_Fletcher32 = "true" ;
data: v = 1234567, -89101112, 2000000011 ;
}`)
	// Undo the shuffling in the file, and state that it was left out for the chunk.
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	at := bytes.Index(b, []byte("TREE\\x01\\x00"))
	if at < 0 || binary.LittleEndian.Uint32(b[at+24:]) != 16 || binary.LittleEndian.Uint32(b[at+28:]) != 0 {
		t.Fatal("not the expected chunk")
	}
	binary.LittleEndian.PutUint32(b[at+28:], 1<<1)
	chunk := b[binary.LittleEndian.Uint64(b[at+48:]):][:16]
	plain := make([]byte, 16)
	for i := range 4 {
		for k := range 4 {
			plain[i*4+k] = chunk[k*4+i]
		}
	}
	copy(chunk, plain)
	if err = os.WriteFile(f, b, 0o644); err != nil {
		t.Fatal(err)
	}
	nc, err := Open(f)
	if err != nil {
		t.Fatal(err)
	}
	defer nc.Close()
	v, err := nc.GetVariable("v")
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(v.Values, []int32{1234567, -89101112, 2000000011}) {
		t.Fatal(v.Values)
	}
}
''',"a chunk for which one of several filters was left out","the bits of the filter mask are taken in the wrong order")

bug('group-reference-leak','H10',[(HR,'''	o := sgDescend(toDescend, h5groupName)
	if o == nil {
''','''	o := sgDescend(toDescend, h5groupName)
	var file *raFile
	if h5.file != nil {
		file = h5.file.dup()
	}
	if o == nil {
'''),(HR,'''	hg.file = h5.file.dup()
''','''	hg.file = file
''')],'netcdf/hdf5','''
package hdf5

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)
'''+NCGEN+'''
func TestZZDemo(t *testing.T) {
	f := ncgen(t, "nc4", `netcdf f {
variables: int v ;
data: v = 1 ;
group: a { variables: int w ; data: w = 2 ; }
}`)
	nc, err := Open(f)
	if err != nil {
		t.Fatal(err)
	}
	g, err := nc.GetGroup("a")
	if err != nil {
		t.Fatal(err)
	}
	if _, err = nc.GetGroup("b"); err == nil {
		t.Fatal("there is no such group")
	}
	g.Close()
	nc.Close()
	fds, _ := filepath.Glob("/proc/self/fd/*")
	for _, fd := range fds {
		if at, err := os.Readlink(fd); err == nil && at == f {
			t.Fatal("the file is still open")
		}
	}
}
''','looking for a group that does not exist before closing the file','a lookup that fails takes a reference to the file, which is never closed')

bug('coordinate-dimension-id','W07',[(HW,'''				"CLASS":         "DIMENSION_SCALE",
				"NAME":          nameVal,
				"_Netcdf4Dimid": int32(i),
			}
''','''				"CLASS":         "DIMENSION_SCALE",
				"NAME":          nameVal,
				"_Netcdf4Dimid": int32(len(existing.dimensions) - 1),
			}
''')],'netcdf/hdf5','''
package hdf5

import (
	"os/exec"
	"regexp"
	"testing"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/f.nc"
	cw, err := OpenWriter(f)
	if err != nil {
		t.Fatal(err)
	}
	add := func(name string, val any, dims ...string) {
		if err := cw.AddVar(name, api.Variable{Values: val, Dimensions: dims}); err != nil {
			t.Fatal(err)
		}
	}
	add("data", [][]int32{{1, 2, 3}, {4, 5, 6}}, "y", "x")
	add("y", []int32{1, 2}, "y")
	add("x", []int32{1, 2, 3}, "x")
	if err = cw.Close(); err != nil {
		t.Fatal(err)
	}
	out, err := exec.Command("h5dump", "-a", "/x/_Netcdf4Dimid", "-a", "/y/_Netcdf4Dimid", f).CombinedOutput()
	if err != nil {
		t.Fatal(err, string(out))
	}
	ids := regexp.MustCompile(`\\(0\\): (\\d+)`).FindAllStringSubmatch(string(out), -1)
	if len(ids) != 2 || ids[0][1] == ids[1][1] {
		t.Fatal(string(out))
	}
}
''','a file with two coordinate variables','dimensions of coordinate variables all get the same identifier')
