// The file name of a document id. url.PathEscape is assumed to be injective, to
// keep plain names plain, to write every percent sign as an escape, and to
// leave dots alone.

fun urlesc(s string) string
fun urlunesc(s string) string
fun okesc(n string) bool
axiom urlesc_inj (s string) :: {urlesc(s)} urlunesc(urlesc(s)) == s
axiom urlesc_plain (s string) :: {urlesc(s)} nosep(urlesc(s)) && okesc(urlesc(s)) && (s != "" && s != "." && s != ".." ==> plain(urlesc(s))) && urlesc(s) != "%2E" && urlesc(s) != "%2E%2E"
axiom okesc_helper (n string) :: {okesc(n)} okesc(n) ==> !helperName(n)
extern net/url.PathEscape(s) returns (r)
  pure
  ensures r == urlesc(s)

define docName(id string) string = id == "" ? "%" : id == "." ? "%2E" : id == ".." ? "%2E%2E" : urlesc(id)
lemma [C23, C06] docName_plain (a string) :: plain(docName(a)) && !helperName(docName(a))
lemma [C23, C06] docName_inj (a string, b string) :: docName(a) == docName(b) ==> a == b
