From 18b22fa5a98393e6636cc4f954dcc24a7f5dd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:30 +0000
Subject: [PATCH 01/12] fix: read header lines whole and verbatim

bufio.Reader.ReadLine drops a CR before the LF and splits lines longer than
the reader's buffer, and the split was ignored. A commit or tag with such a
line (a CRLF line in a merge tag's message, a long header) decoded to a node
that re-encoded to different bytes, and so to a different hash.
---
 commit.go |  6 +++---
 helper.go | 14 ++++++++++++++
 tag.go    |  6 +++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/commit.go b/commit.go
index 44e133e..d61a643 100644
--- a/commit.go
+++ b/commit.go
@@ -25,7 +25,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -125,7 +125,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, _, err := rd.ReadLine()
+	line, err := readLine(rd)
 	if err != nil {
 		return out, err
 	}
@@ -145,7 +145,7 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
diff --git a/helper.go b/helper.go
index 602cefe..0ad117e 100644
--- a/helper.go
+++ b/helper.go
@@ -51,3 +51,17 @@ func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 
 	return strconv.Atoi(lstr)
 }
+
+// readLine returns the next line of rd without its LF terminator. Unlike
+// bufio.Reader.ReadLine it returns lines of any length whole, and leaves a CR
+// before the LF in place: both are part of the data a git object is hashed by.
+func readLine(rd *bufio.Reader) ([]byte, error) {
+	line, err := rd.ReadBytes('\n')
+	if err != nil {
+		if err == io.EOF && len(line) > 0 {
+			return line, nil
+		}
+		return nil, err
+	}
+	return line[:len(line)-1], nil
+}
diff --git a/tag.go b/tag.go
index ff6c544..9608438 100644
--- a/tag.go
+++ b/tag.go
@@ -26,7 +26,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -82,7 +82,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	}
 	out.object = _Link{cidlink.Link{Cid: objCid}}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -106,7 +106,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 			// repeated string concatenation would copy it on every line.
 			var msg strings.Builder
 			for {
-				line, _, err := rd.ReadLine()
+				line, err := readLine(rd)
 				if err != nil {
 					out.message.x = msg.String()
 					return nil, nil, err
-- 
2.43.0


From 4cf1f9d3cca03f771c8285b299a016b69a3c6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 02/12] fix: do not panic encoding a commit without author or
 committer

Both are optional in the schema and DecodeCommit accepts commits without them,
but encoding one dereferenced a nil PersonInfo.
---
 commit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index d61a643..db6d074 100644
--- a/commit.go
+++ b/commit.go
@@ -175,8 +175,12 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	for _, p := range c.parents.x {
 		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
 	}
-	fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
-	fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	if c.author.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
+	}
+	if c.committer.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	}
 	if c.encoding.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
-- 
2.43.0


From 2d7cc6fe81a60b049a4cc4f9bc20a6453bdc8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 03/12] fix: reject a tree that ends inside an entry

DecodeTree ends at io.EOF, and DecodeTreeEntry returned io.EOF also when the
input ran out after part of an entry, so a truncated tree decoded without error
and without its last entry.
---
 helper.go | 9 +++++++++
 tree.go   | 7 +++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/helper.go b/helper.go
index 0ad117e..df0bba6 100644
--- a/helper.go
+++ b/helper.go
@@ -65,3 +65,12 @@ func readLine(rd *bufio.Reader) ([]byte, error) {
 	}
 	return line[:len(line)-1], nil
 }
+
+// noEOF turns the io.EOF of a read that ended inside a value into
+// io.ErrUnexpectedEOF, so that callers do not take it for the regular end.
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
diff --git a/tree.go b/tree.go
index 42959c1..7e41292 100644
--- a/tree.go
+++ b/tree.go
@@ -47,20 +47,23 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	data, err := rd.ReadString(' ')
 	if err != nil {
+		if len(data) > 0 {
+			err = noEOF(err)
+		}
 		return "", nil, err
 	}
 	data = data[:len(data)-1]
 
 	name, err := rd.ReadString(0)
 	if err != nil {
-		return "", nil, err
+		return "", nil, noEOF(err)
 	}
 	name = name[:len(name)-1]
 
 	sha := make([]byte, 20)
 	_, err = io.ReadFull(rd, sha)
 	if err != nil {
-		return "", nil, err
+		return "", nil, noEOF(err)
 	}
 
 	c, err := shaToCid(sha)
-- 
2.43.0


From f19219407e6a1388c731ca70506a9a6e4e5ce12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 04/12] fix: refuse to encode a link that is not a git sha

Encoding a reference took the last 20 bytes of whatever hash the CID held: a
sha2-256 link was written as a truncated, wrong reference, a shorter hash or an
undefined CID panicked, a missing link was written as an empty one, and a link
that is no CID panicked in trees.
---
 commit.go | 20 ++++++++++++++++----
 tag.go    |  6 +++++-
 tree.go   |  6 +++++-
 util.go   | 44 +++++++++++++++++++-------------------------
 4 files changed, 45 insertions(+), 31 deletions(-)

diff --git a/commit.go b/commit.go
index db6d074..2a8f148 100644
--- a/commit.go
+++ b/commit.go
@@ -171,9 +171,17 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	buf := new(bytes.Buffer)
 
-	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(c.tree.sha()))
+	treeSha, err := c.tree.sha()
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(treeSha))
 	for _, p := range c.parents.x {
-		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
+		parentSha, err := p.sha()
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(parentSha))
 	}
 	if c.author.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
@@ -185,7 +193,11 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
 	for _, mtag := range c.mergetag.x {
-		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
+		objSha, err := mtag.object.sha()
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(objSha))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
 		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
@@ -203,7 +215,7 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	// fmt.Printf("encode commit len: %d \n", buf.Len())
 	//	fmt.Printf("out: %s\n", string(buf.Bytes()))
-	_, err := fmt.Fprintf(w, "commit %d\x00", buf.Len())
+	_, err = fmt.Fprintf(w, "commit %d\x00", buf.Len())
 	if err != nil {
 		return err
 	}
diff --git a/tag.go b/tag.go
index 9608438..8155f25 100644
--- a/tag.go
+++ b/tag.go
@@ -133,6 +133,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	objSha, err := sha(objLnk)
+	if err != nil {
+		return err
+	}
 
 	tt, err := n.LookupByString("type")
 	if err != nil {
@@ -164,7 +168,7 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	tagger, taggerErr := n.LookupByString("tagger")
 
 	buf := new(bytes.Buffer)
-	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(sha(objLnk)))
+	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(objSha))
 	fmt.Fprintf(buf, "type %s\n", ttStr)
 	fmt.Fprintf(buf, "tag %s\n", tagStr)
 	if taggerErr == nil && !tagger.IsNull() {
diff --git a/tree.go b/tree.go
index 7e41292..cbc12aa 100644
--- a/tree.go
+++ b/tree.go
@@ -126,7 +126,11 @@ func encodeTreeEntry(name string, n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.Write(cidToSha(hal.(cidlink.Link).Cid))
+	entrySha, err := sha(hal)
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(entrySha)
 	if err != nil {
 		return err
 	}
diff --git a/util.go b/util.go
index e41d58a..dfd5b56 100644
--- a/util.go
+++ b/util.go
@@ -10,8 +10,8 @@ import (
 )
 
 // gitSHALen is the length of a git object hash. A reference of any other length
-// cannot name a git object, and cidToSha assumes this width when it turns a CID
-// back into one.
+// cannot name a git object, and cidToSha rejects it when it turns a CID back into
+// one.
 const gitSHALen = 20
 
 func shaToCid(sha []byte) (cid.Cid, error) {
@@ -25,39 +25,33 @@ func shaToCid(sha []byte) (cid.Cid, error) {
 	return cid.NewCidV1(cid.GitRaw, h), nil
 }
 
-func cidToSha(c cid.Cid) []byte {
-	h := c.Hash()
-	return h[len(h)-20:]
+func cidToSha(c cid.Cid) ([]byte, error) {
+	h, err := mh.Decode(c.Hash())
+	if err != nil {
+		return nil, fmt.Errorf("invalid git reference: %w", err)
+	}
+	if h.Code != mh.SHA1 || len(h.Digest) != gitSHALen {
+		return nil, fmt.Errorf("invalid git reference %s: not a sha1", c)
+	}
+	return h.Digest, nil
 }
 
-func sha(l ipld.Link) []byte {
+func sha(l ipld.Link) ([]byte, error) {
 	cl, ok := l.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("invalid git reference %v: not a CID", l)
 	}
 	return cidToSha(cl.Cid)
 }
 
-func (l Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
+func (l Link) sha() ([]byte, error) {
+	return sha(l.x)
 }
 
-func (l Tree_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
+func (l Tree_Link) sha() ([]byte, error) {
+	return sha(l.x)
 }
 
-func (l Commit_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
+func (l Commit_Link) sha() ([]byte, error) {
+	return sha(l.x)
 }
-- 
2.43.0


From cceeb1793016b351fa60296ed6cf11098da52d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 05/12] fix: do not panic encoding a list

Encode hands a node of list kind to encodeTree, which called methods on the nil
map iterator such a node has.
---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index cbc12aa..59ecc67 100644
--- a/tree.go
+++ b/tree.go
@@ -79,6 +79,10 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 }
 
 func encodeTree(n ipld.Node, w io.Writer) error {
+	if n.Kind() != ipld.Kind_Map {
+		return fmt.Errorf("not a Tree: %T is of kind %s", n, n.Kind())
+	}
+
 	buf := new(bytes.Buffer)
 
 	mi := n.MapIterator()
-- 
2.43.0


From ec16aef34091706528fcd0a417fcb34cbb7be201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 06/12] fix: encode a tag without tagger as one

Tags made before git recorded taggers decode to an empty tagger, which was
encoded as a made-up "tagger  <>" line, changing the object's hash.
---
 commit.go | 6 ++++--
 tag.go    | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index 2a8f148..a11ed21 100644
--- a/commit.go
+++ b/commit.go
@@ -200,8 +200,10 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(objSha))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
-		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
-		fmt.Fprintf(buf, "%s", mtag.message.x)
+		if mtag.tagger != (_PersonInfo{}) {
+			fmt.Fprintf(buf, " tagger %s\n", mtag.tagger.GitString())
+		}
+		fmt.Fprintf(buf, " \n%s", mtag.message.x)
 	}
 	if c.signature.m == schema.Maybe_Value {
 		fmt.Fprintln(buf, "gpgsig -----BEGIN PGP SIGNATURE-----")
diff --git a/tag.go b/tag.go
index 8155f25..f4119ab 100644
--- a/tag.go
+++ b/tag.go
@@ -181,7 +181,9 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		if !ok {
 			return fmt.Errorf("could not parse tagger person info %v", tagger)
 		}
-		fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		if *parsed != (_PersonInfo{}) {
+			fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		}
 	}
 	if messageStr != "" {
 		fmt.Fprintf(buf, "\n%s", messageStr)
-- 
2.43.0


From f97cd73c4f09af7492eab2cda233765465fae2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 07/12] fix: keep signatures that are not PGP signatures

A gpgsig header was decoded, and encoded again, as a PGP signature whatever its
first line said. Commits signed with SSH or X.509 keys could not be decoded at
all; their header is now kept verbatim with the other headers.
---
 commit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit.go b/commit.go
index a11ed21..86197b3 100644
--- a/commit.go
+++ b/commit.go
@@ -103,7 +103,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 				return err
 			}
 		}
-	case bytes.HasPrefix(line, []byte("gpgsig ")):
+	case bytes.Equal(line, []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
 			return err
-- 
2.43.0


From a887e3eacc6cc4a45ac65180eb75a1ab0b3cbb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 08/12] fix: do not drop what follows a merge tag without
 message

readMergeTag skipped every line up to the blank line before the tag's message.
Where a tag has no message that is the rest of the commit: the remaining
headers, and the commit message itself, were lost without an error.
---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index f4119ab..c6010e4 100644
--- a/tag.go
+++ b/tag.go
@@ -119,6 +119,9 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 
 				msg.WriteString(string(line) + "\n")
 			}
+		case !bytes.HasPrefix(line, []byte(" ")):
+			// The tag has no message, this is the commit's next line.
+			return &out, line, nil
 		}
 	}
 	return &out, nil, nil
-- 
2.43.0


From b3a9f16b5f4273ce01e27cc165f57991004ff4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 09/12] fix: do not overflow the stack on a commit with many
 merge tags

decodeCommitLine called itself for the line after each merge tag, so a commit
with enough of them ended the process with a stack overflow.
---
 commit.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/commit.go b/commit.go
index 86197b3..4eedab8 100644
--- a/commit.go
+++ b/commit.go
@@ -33,52 +33,57 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 			return err
 		}
 
-		err = decodeCommitLine(&c, line, rd)
-		if err != nil {
-			return err
+		// A merge tag ends at the line after it, which is decoded next.
+		for line != nil {
+			line, err = decodeCommitLine(&c, line, rd)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
 	return na.AssignNode(&c)
 }
 
-func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
+// decodeCommitLine decodes line, and the lines following it that belong to it,
+// into c. It returns the line after those if it had to be read to find the end.
+func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) ([]byte, error) {
 	switch {
 	case bytes.HasPrefix(line, []byte("tree ")):
 		sha, err := hex.DecodeString(string(line[5:]))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		treeCid, err := shaToCid(sha)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.tree = _Tree_Link{cidlink.Link{Cid: treeCid}}
 	case bytes.HasPrefix(line, []byte("parent ")):
 		psha, err := hex.DecodeString(string(line[7:]))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		parentCid, err := shaToCid(psha)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})
 	case bytes.HasPrefix(line, []byte("author ")):
 		a, err := parsePersonInfo(line)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.author = _PersonInfo__Maybe{m: schema.Maybe_Value, v: a}
 	case bytes.HasPrefix(line, []byte("committer ")):
 		com, err := parsePersonInfo(line)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.committer = _PersonInfo__Maybe{m: schema.Maybe_Value, v: com}
@@ -87,39 +92,34 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 	case bytes.HasPrefix(line, []byte("mergetag object ")):
 		sha, err := hex.DecodeString(string(line)[prefixMergetag:])
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		mt, rest, err := readMergeTag(sha, rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
-		if rest != nil {
-			err = decodeCommitLine(c, rest, rd)
-			if err != nil {
-				return err
-			}
-		}
+		return rest, nil
 	case bytes.Equal(line, []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		c.signature = _GpgSig__Maybe{m: schema.Maybe_Value, v: sig}
 	case len(line) == 0:
 		rest, err := io.ReadAll(rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.message = _String{string(rest)}
 	default:
 		c.other.x = append(c.other.x, _String{string(line)})
 	}
-	return nil
+	return nil, nil
 }
 
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
-- 
2.43.0


From 8729816192d64cfaa84944876f23cb099b2e59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 10/12] fix: do not panic assigning a map to an optional
 PersonInfo

An optional struct is built behind a nil pointer. BeginMap allocates it, but
AssignNode copied a map of another type into it without doing so, so encoding
the representation of a commit, or a commit built from generic nodes, panicked.
The generator has the same gap for every optional struct, and PersonInfo is the
only one in this schema.
---
 ipldsch_satisfaction.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 47301f4..3237990 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -3301,6 +3301,9 @@ func (na *_PersonInfo__Assembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.PersonInfo", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if na.w == nil {
+		na.w = &_PersonInfo{}
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
@@ -3830,6 +3833,9 @@ func (na *_PersonInfo__ReprAssembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.PersonInfo.Repr", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if na.w == nil {
+		na.w = &_PersonInfo{}
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
-- 
2.43.0


From a96cd4fdfcb0899315c5676167cdf85a10db2781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 11/12] fix: do not panic assigning a map of another type to a
 Tree

BeginMap makes the index by name, AssignNode went on to fill it without, so
decoding another kind of object into a tree builder, or building a tree from a
generic map, panicked.
---
 ipldsch_satisfaction.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 3237990..09e755a 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -6987,6 +6987,9 @@ func (na *_Tree__Assembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.Tree", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if na.w.m == nil {
+		na.w.m = make(map[_String]*_TreeEntry)
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
@@ -7321,6 +7324,9 @@ func (na *_Tree__ReprAssembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.Tree.Repr", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if na.w.m == nil {
+		na.w.m = make(map[_String]*_TreeEntry)
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
-- 
2.43.0


From 89bafe151f05d1bcfe61a154e904784cafac3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 12/12] fix: do not panic looking up a negative list index

A path like parents/-1 is looked up by the index -1, which was only compared
with the list's length.
---
 ipldsch_satisfaction.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 09e755a..73f85ee 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -2015,14 +2015,14 @@ type _Commit_Link__ReprPrototype = _Commit_Link__Prototype
 type _Commit_Link__ReprAssembler = _Commit_Link__Assembler
 
 func (n *_Commit_Link_List) Lookup(idx int64) Commit_Link {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_Commit_Link_List) LookupMaybe(idx int64) MaybeCommit_Link {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -2107,7 +2107,7 @@ func (n Commit_Link_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n Commit_Link_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
@@ -4338,14 +4338,14 @@ type _String__ReprPrototype = _String__Prototype
 type _String__ReprAssembler = _String__Assembler
 
 func (n *_String_List) Lookup(idx int64) String {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_String_List) LookupMaybe(idx int64) MaybeString {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -4430,7 +4430,7 @@ func (n String_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n String_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
@@ -6121,14 +6121,14 @@ func (_Tag__ReprKeyAssembler) Prototype() ipld.NodePrototype {
 }
 
 func (n *_Tag_List) Lookup(idx int64) Tag {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_Tag_List) LookupMaybe(idx int64) MaybeTag {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -6213,7 +6213,7 @@ func (n Tag_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n Tag_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
-- 
2.43.0

