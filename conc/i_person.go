package ipldgit

func init() { vParsePersonInfo = parsePersonInfo }
