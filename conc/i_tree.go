package ipldgit

func init() { vEncodeTree = encodeTree }
