// ---- assumed contracts of the standard library's byte sinks ----
extern "(*strings.Builder).WriteByte" (sb, c) {
  requires nonpanic: sb != nil
  ensures w: view(sb) == old(view(sb)) ++ sunit(c)
  ensures e: result == nil
  modifies view(sb)
}
extern "(*strings.Builder).Write" (sb, p) {
  requires nonpanic: sb != nil
  ensures w: view(sb) == old(view(sb)) ++ view(p)
  ensures e: result1 == nil && result0 == len(p)
  modifies view(sb)
}
extern "(*strings.Builder).WriteString" (sb, s) {
  requires nonpanic: sb != nil
  ensures w: view(sb) == old(view(sb)) ++ s
  ensures e: result1 == nil && result0 == len(s)
  modifies view(sb)
}
extern "(*strings.Builder).Grow" (sb, n) {
  requires nonpanic: sb != nil && 0 <= n
  modifies nothing
}
extern "(*strings.Builder).Len" (sb) {
  requires nonpanic: sb != nil
  ensures r: result == slen(view(sb))
  modifies nothing
}
extern "(*strings.Builder).String" (sb) {
  requires nonpanic: sb != nil
  ensures r: result == view(sb)
  modifies nothing
}
extern "(*bytes.Buffer).WriteByte" (b, c) {
  requires nonpanic: b != nil
  ensures w: view(b) == old(view(b)) ++ sunit(c)
  ensures e: result == nil
  modifies view(b)
}
extern "(*bytes.Buffer).Write" (b, p) {
  requires nonpanic: b != nil
  ensures w: view(b) == old(view(b)) ++ view(p)
  ensures e: result1 == nil && result0 == len(p)
  modifies view(b)
}
extern "(*bytes.Buffer).WriteString" (b, s) {
  requires nonpanic: b != nil
  ensures w: view(b) == old(view(b)) ++ s
  ensures e: result1 == nil && result0 == len(s)
  modifies view(b)
}
extern "(*bytes.Buffer).Grow" (b, n) {
  requires nonpanic: b != nil && 0 <= n
  modifies nothing
}
extern "(*bytes.Buffer).Len" (b) {
  requires nonpanic: b != nil
  ensures r: result == slen(view(b))
  modifies nothing
}
extern "(*bytes.Buffer).String" (b) {
  requires nonpanic: b != nil
  ensures r: result == view(b)
  modifies nothing
}
