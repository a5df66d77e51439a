package ipldgit

// Blobs.

import (
	"io"
	"strings"
)

// specBlobOK: data after "blob " is a blob: a size, and at least that many bytes.
func specBlobOK(rest string) bool {
	return specSizeOK(rest) && specSize(rest) >= 0 && len(specTail(rest, "\x00")) >= specSize(rest)
}

func specBlob(rest string) string {
	return specFrame("blob", specTail(rest, "\x00")[:specSize(rest)])
}

// specBlobCut: the reader fails before the blob's end.
func specBlobCut(rest string, end error) bool {
	return !strings.Contains(rest, "\x00") ||
		end != io.EOF && specSizeOK(rest) && specSize(rest) >= 0 && len(specTail(rest, "\x00")) < specSize(rest)
}
