package PKG

// The specification language: bodies are supplied by the verifier.

func vInt(name string) int                 { panic(0) }
func vI64(name string) int64               { panic(0) }
func vI32(name string) int32               { panic(0) }
func vU64(name string) uint64              { panic(0) }
func vU32(name string) uint32              { panic(0) }
func vU16(name string) uint16              { panic(0) }
func vByte(name string) byte               { panic(0) }
func vBool(name string) bool               { panic(0) }
func vRange(name string, lo, hi int) int   { panic(0) }
func vEnum(name string, lo, hi int) int    { panic(0) }
func vBytes(name string) []byte            { panic(0) }
func vBytesN(name string, n int) []byte    { panic(0) }
func vString(name string) string           { panic(0) }
func vAssume(c bool)                       {}
func vRequire(c bool)                      {}
func vEnsure(c bool, label string)         {}
func vCover(label string)                  {}
func vInv(c bool, label string)            {}
func vBind[T any](p *T, v T, label string) {}
func vMode() int                           { panic(0) }
func vUse(fn string, contract interface{}) {}
func vLoop(fn string, ord int, inv interface{}) {
}
func vEqB(a, b []byte) bool                      { panic(0) }
func vEqS(a, b string) bool                      { panic(0) }
func vHas(a, b string) bool                      { panic(0) }
func vSame[T any](a, b T) bool                   { panic(0) }
func vAnd(c ...bool) bool                        { panic(0) }
func vOr(c ...bool) bool                         { panic(0) }
func vImp(a, b bool) bool                        { panic(0) }
func vIte(c bool, a, b int) int                  { panic(0) }
func vUFI(name string, a ...int) int             { panic(0) }
func vUFN(name string, a ...int) int             { panic(0) }
func vUFR(name string, lo, hi int, a ...int) int { panic(0) }
func vUFU(name string, a ...int) uint64          { panic(0) }
func vUFB(name string, a ...int) bool            { panic(0) }
func vUFS(name string, a ...int) string          { panic(0) }
func vInjS(name string, id int) string           { panic(0) }
func vSameArr[T any](a, b []T) bool              { panic(0) }
func vListIdx[T any](n int, v T) []T             { panic(0) }
func vSameRef[T any](a, b T) bool                { panic(0) }
func vMark()                                     {}
func vFrame(on bool)                             {}
func vFresh(b []byte) bool                       { panic(0) }
func vWithin(a, b []byte) bool                   { panic(0) }
func vOff(b []byte) int                          { panic(0) }
func vSameBase(a, b []byte) bool                 { panic(0) }
func vList[T any](n, k int, v T) []T             { panic(0) }
func vListUF[T any](n int, name string) []T      { panic(0) }
func vListDef[T any](n int, f func(i int) T, fact func(i, j int) bool) []T {
	panic(0)
}
func vListIs[T any](l []T, n int, f func(i int) T) bool                { panic(0) }
func vListSet[T any](l []T, f func(i int) T, fact func(i, j int) bool) {}
func vTouch[T any](l []T, i int)                                       {}
func vMapLen[K comparable, V any](m map[K]V, n int)                    {}
func vMapIs[K comparable, V any](m map[K]V, gen func(k K) (V, bool))   {}
func vVisited(k interface{}) bool                                      { panic(0) }
func vOnRecv(c interface{}, f interface{})                             {}
func vOnSend(c interface{}, f interface{})                             {}
func vCanRecv(c interface{}, f interface{})                            {}
func vCanSend(c interface{}, f interface{})                            {}
func vChanState(c interface{}) (int, bool)                             { panic(0) }
func vSpawned() int                                                    { panic(0) }
func vRunSpawned(i int)                                                {}
func vUnreachable(label string)                                        {}
func vStop()                                                           {}
func vSymbolic() bool                                                  { return true }
func vDump(a ...interface{})                                           {}
func vMapGen[K comparable, V any](gen func(k K) (V, bool)) map[K]V {
	panic(0)
}

// The JSON text out holds, at a path of keys, this value.
func vJSONStr(out []byte, path string, want string) bool      { panic(0) }
func vJSONInt(out []byte, path string, want int64) bool       { panic(0) }
func vJSONBool(out []byte, path string, want bool) bool       { panic(0) }
func vJSONNull(out []byte, path string) bool                  { panic(0) }
func vJSONList[T any](out []byte, path string, list []T) bool { panic(0) }
