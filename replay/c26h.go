package replay

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"sync"
	"testing"
	"time"
)

// TestVerifC26H sends concurrent requests to the server, under the race detector.
func TestVerifC26H(t *testing.T) {
	v := vStart(t)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Println("no loopback network:", err)
		return
	}
	port := fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
	l.Close()
	os.Setenv("PORT", port)
	go main()
	base := "http://127.0.0.1:" + port + "/nir"
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:"+port)
		if err == nil {
			c.Close()
			break
		}
		if i > 100 {
			fmt.Println("the server does not listen:", err)
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	cl := &http.Client{Timeout: 20 * time.Second}
	words := []string{"galaxy", "nebula", "stars", "the", "unknownword", ""}
	post := func(id, title, text string) {
		b, _ := json.Marshal(map[string]string{"id": id, "title": title, "text": text})
		if r, err := cl.Post(base, "application/json", bytes.NewReader(b)); err == nil {
			io.Copy(io.Discard, r.Body)
			r.Body.Close()
		}
	}
	get := func(q string) {
		if r, err := cl.Get(base + "?query=" + url.QueryEscape(q)); err == nil {
			io.Copy(io.Discard, r.Body)
			r.Body.Close()
		}
	}
	for i := 0; i < 4; i++ {
		post(fmt.Sprint("d", i), words[i%3], words[i%4]+" galaxy")
	}
	for n := 0; v.more(60); n++ {
		v.kase("round %d: concurrent POST and GET requests to the server (race detector)", n)
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 4; i++ {
					w := words[(g+i+n)%len(words)]
					if n%3 == 0 || n%3 == 1 && g%2 == 0 {
						get(w)
					} else {
						post(fmt.Sprintf("%s%d-%d-%d", []string{"d", ""}[i%2], n%4, g, i), w, w+" stars")
					}
				}
			}(g)
		}
		wg.Wait()
	}
	v.ok()
}
