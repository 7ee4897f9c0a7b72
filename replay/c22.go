package replay

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
)

// hPipe is the full text pipeline.
func hPipe(text string) []string {
	r := tokenizer.NewStandard().Tokenize(text)
	r = filter.NewLowercase().Process(r)
	r = filter.NewStopWords(language.GetWords(language.English)).Process(r)
	r = filter.NewStemmer(stemmer.Snowball).Process(r)
	return filter.NewASCII().Process(r)
}

type hResult struct {
	QueryResults []struct {
		Similarity float64 `json:"similarity"`
		Document   struct {
			Id string `json:"id"`
		} `json:"document"`
	} `json:"queryResults"`
}

// TestVerifC22 runs the server and talks to it.
func TestVerifC22(t *testing.T) {
	v := vStart(t)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Println("no loopback network:", err)
		return
	}
	port := fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
	l.Close()
	os.Setenv("PORT", port)
	go main()
	base := "http://127.0.0.1:" + port + "/nir"
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:"+port)
		if err == nil {
			c.Close()
			break
		}
		if i > 100 {
			fmt.Println("the server does not listen:", err)
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	ref := storage.NewMemory()
	inv := index.NewIndex(ref)
	sr := search.NewStandard(inv)
	cl := &http.Client{Timeout: 10 * time.Second}
	words := []string{"Galaxy", "galaxies", "NEBULA", "dark", "matter", "the", "of", "quasars", "running", "Émile", "naïve", "it's", "telescope", "x-ray", "a", "stars"}
	n := 0
	posted := map[string][3]string{}
	history := ""
	post := func(id, title, text string) int {
		b, _ := json.Marshal(map[string]string{"id": id, "title": title, "text": text})
		r, err := cl.Post(base, "application/json", bytes.NewReader(b))
		if err != nil {
			v.fail("POST of %s is not answered: %v", b, err)
		}
		io.Copy(io.Discard, r.Body)
		r.Body.Close()
		return r.StatusCode
	}
	txt := func(max int) string {
		var w []string
		for i := v.r.Intn(max + 1); i > 0; i-- {
			w = append(w, v.str(words))
		}
		return strings.Join(w, v.pick(" ", ", ", " - "))
	}
	for v.more(150) {
		if n < 60 || v.r.Intn(4) == 0 {
			for k := v.r.Intn(4); k >= 0; k-- {
				id, title, text := fmt.Sprint("doc", n), txt(4), txt(12)
				if v.r.Intn(8) == 0 {
					title = fmt.Sprint("uniq", n%7)
				}
				switch v.r.Intn(20) {
				case 0:
					text = strings.Repeat(text+" stars ", 1+v.r.Intn(1000)) + "Telescope"
				case 1:
					id = v.pick(" ", "Doc ", " doc", "DOC-") + id
				}
				n++
				history = fmt.Sprintf("%d documents posted, the last one %q %q %q", n, id, title, text)
				v.kase("%s", history)
				if c := post(id, title, text); c < 200 || c > 299 {
					v.fail("the document is answered with status %d", c)
				}
				posted[id] = [3]string{id, title, text}
				var fs []model.Field
				for i, name := range []string{"id", "title", "text"} {
					p := hPipe(posted[id][i])
					fs = append(fs, model.Field{Name: name, Length: len(p), TF: metric.TermFrequency(p)})
				}
				for _, f := range fs {
					ref.SaveOrUpdate(id, f)
				}
			}
		}
		if v.r.Intn(6) == 0 {
			v.kase("%s; a document without an id", history)
			if c := post("", "noid", "noid "+txt(3)); c < 400 {
				v.fail("a document without an id is answered with status %d", c)
			}
			r, err := cl.Post(base, "application/json", strings.NewReader("{\"id\": 5"))
			if err != nil {
				v.fail("a body that is no JSON is not answered: %v", err)
			}
			r.Body.Close()
		}
		q := v.pick(txt(3), v.str(words), fmt.Sprint("uniq", v.r.Intn(9)), "noid")
		v.kase("%s; query %q", history, q)
		terms := hPipe(q)
		rs := sr.Search([]model.Query{{FieldName: "title", Terms: terms, Boost: 1}, {FieldName: "text", Terms: terms, Boost: 1}})
		score := map[string]float64{}
		var all []float64
		for _, r := range rs {
			score[r.Id] = r.Score
			all = append(all, r.Score)
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(all)))
		r, err := cl.Get(base + "?query=" + url.QueryEscape(q))
		if err != nil {
			v.fail("the query is not answered (%d hits): %v", len(rs), err)
		}
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		if r.StatusCode != 200 {
			v.fail("the query (%d hits) is answered with status %d", len(rs), r.StatusCode)
		}
		var got hResult
		if err := json.Unmarshal(b, &got); err != nil {
			v.fail("the answer is no JSON: %v", err)
		}
		want := len(rs)
		if want > 10 {
			want = 10
		}
		if len(got.QueryResults) != want {
			v.fail("%d results for %d hits", len(got.QueryResults), len(rs))
		}
		seen := map[string]bool{}
		for i, g := range got.QueryResults {
			s, ok := score[g.Document.Id]
			if !ok || seen[g.Document.Id] {
				v.fail("result %d is %q, which does not match or is repeated", i, g.Document.Id)
			}
			seen[g.Document.Id] = true
			if math.Abs(s-g.Similarity) > 1e-9 {
				v.fail("result %d, %q, has score %v instead of %v", i, g.Document.Id, g.Similarity, s)
			}
			if math.Abs(all[i]-g.Similarity) > 1e-9 {
				v.fail("result %d has score %v, the hit of that rank has %v", i, g.Similarity, all[i])
			}
		}
	}
	// what was indexed, seen through the files
	v.kase("%s; the stored fields after the flush", history)
	var bad string
	for i := 0; i < 16; i++ {
		time.Sleep(time.Second)
		v.kase("%s; the stored fields after the flush", history)
		bad = ""
		d := storage.NewDiskIO("disk_storage/")
		for id, texts := range posted {
			m, ok := d.LoadFieldDocumentOnHD(id)
			if !ok {
				bad = fmt.Sprintf("document %q is not stored", id)
				break
			}
			if len(m) != 3 {
				bad = fmt.Sprintf("document %q has %d fields", id, len(m))
			}
			for i, name := range []string{"id", "title", "text"} {
				p := hPipe(texts[i])
				want := metric.TermFrequency(p)
				f, ok := m[name]
				if !ok || f.Length != len(p) || len(f.TF) != len(want) {
					bad = fmt.Sprintf("field %q of document %q, %q, is indexed as %v", name, id, texts[i], f)
				}
				for w, k := range want {
					if f.TF[w] != k {
						bad = fmt.Sprintf("field %q of document %q, %q, is indexed as %v", name, id, texts[i], f)
					}
				}
			}
		}
		if bad == "" {
			break
		}
	}
	if bad != "" {
		v.fail("%s", bad)
	}
	v.ok()
}
