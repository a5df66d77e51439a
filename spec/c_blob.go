package ipldgit

import (
	ipld "github.com/ipld/go-ipld-prime"
)

func theorem_blob_parse() {
	r := vAny[*f_io_Reader]("r")
	rest := vAny[string]("rest")
	r.data = "blob " + rest
	vAssume(func() bool { return r.end != nil })
	n, err := ParseObject(r)
	checkBlob(rest, r.end, n, err)
}

func theorem_blob_decode() {
	r := vAny[*f_io_Reader]("r")
	rest := vAny[string]("rest")
	r.data = "blob " + rest
	vAssume(func() bool { return r.end != nil })
	a := vAny[*f_datamodel_NodeAssembler]("na")
	vAssume(func() bool { return a.calls == 0 })
	err := Decode(a, r)
	vAssert("well-formed blobs are assigned, others are not", func() bool { return (a.calls == 1) == specBlobOK(rest) })
	if a.calls == 1 {
		vAssert("the blob's bytes", func() bool { return string(a.bytes) == specBlob(rest) })
		vAssert("the assembler's error is returned", func() bool { return err == a.err })
	} else {
		vAssert("an error if nothing was assigned", func() bool { return err != nil && a.calls == 0 })
		vAssert("read errors are reported", func() bool { return !specBlobCut(rest, r.end) || err == r.end })
	}
}

func theorem_blob_roundtrip() {
	body := vAny[string]("body")
	obj := specFrame("blob", body)
	n, err := ParseObjectFromBuffer([]byte(obj))
	vAssert("a blob object is accepted", func() bool { return err == nil })
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 && w.out == "" })
	err = Encode(n, w)
	vAssert("a decoded blob can be encoded", func() bool { return err == nil })
	vAssert("encoding gives back the object", func() bool { return w.out == obj })
}

func theorem_blob_encode() {
	n := vAny[*_Blob]("n")
	x := string(n.x)
	w := vAny[*f_io_Writer]("w")
	out0, left := w.out, w.left
	vAssume(func() bool { return w.err != nil })
	err := Encode(n, w)
	vAssert("the node's bytes are written, or the writer's error returned", func() bool {
		if left >= 0 && left < len(x) {
			return err == w.err
		}
		return err == nil && w.out == out0+x
	})
	vAssert("the node is not changed", func() bool { return string(n.x) == x })
}
