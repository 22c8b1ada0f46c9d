package corereader2

import (
	"errors"
	"io"
	"net/http"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// VFNode stands for a Bitcoin node: it answers the requests of the client.
type VFNode struct {
	Answer func(url string) VFAnswer
}

// VFAnswer is the answer to one request: Fault 0 none, 1 no connection, 2 the status says failure, 3 the connection is lost while reading, 4 closing fails.
type VFAnswer struct {
	Body  []byte
	Fault int
}

// VFInstall makes the client of this package talk to the node.
func VFInstall(n *VFNode) { TheOneAndOnlyClient.Transport = n }

func (n *VFNode) RoundTrip(r *http.Request) (*http.Response, error) { return n.get(r.URL.String()) }

func (n *VFNode) get(url string) (*http.Response, error) {
	a := n.Answer(url)
	if a.Fault == 1 {
		return nil, errors.New("connection refused")
	}
	res := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	res.ContentLength = int64(len(a.Body))
	b := &vfBody{left: a.Body, fault: a.Fault}
	if a.Fault == 2 {
		res.StatusCode, res.Status = 503, "503 Service Unavailable"
		b.left = []byte("Work queue depth exceeded")
		res.ContentLength = int64(len(b.left))
	}
	res.Body = b
	return res, nil
}

type vfBody struct {
	left  []byte
	fault int
}

func (b *vfBody) Read(p []byte) (int, error) {
	if len(b.left) == 0 || (b.fault == 3 && len(b.left) <= 1) {
		if b.fault == 3 {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := (len(b.left) + 1) / 2 // In several pieces
	if len(b.left) < 64 {
		n = len(b.left)
	}
	if b.fault == 3 && n == len(b.left) {
		n--
	}
	n = copy(p, b.left[:n])
	b.left = b.left[n:]
	return n, nil
}

func (b *vfBody) Close() error {
	if b.fault == 4 {
		return errors.New("close failed")
	}
	return nil
}

// VFHttpGet is what (*http.Client).Get does under symbolic execution.
func VFHttpGet(c *http.Client, url string) (*http.Response, error) {
	n, ok := c.Transport.(*VFNode)
	if !ok {
		n = TheOneAndOnlyClient.Transport.(*VFNode)
	}
	return n.get(url)
}

// VFHex is the text of a hash as requests give it.
func VFHex(h [32]byte) string {
	const digits = "0123456789abcdef"
	t := make([]byte, 64)
	for i, b := range h {
		t[62-2*i] = digits[b>>4]
		t[63-2*i] = digits[b&15]
	}
	return string(t)
}

const VFGenesis = "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f"

func vfDigit(c byte) int {
	if c >= 'a' {
		return int(c-'a') + 10
	}
	return int(c - '0')
}

// VFUnhex is the hash of a text.
func VFUnhex(t string) (h [32]byte) {
	for i := range h {
		h[i] = byte(vfDigit(t[62-2*i])<<4 | vfDigit(t[63-2*i]))
	}
	return
}

const vfUrl = "http://127.0.0.1:8332/rest/"

// VFHeaders answers a request for headers of a chain with the given hashes; ok false if the request is for something else.
func VFHeaders(url string, hash func(i int) [32]byte, index func(hex string) int, header func(i int) []byte, length int) (body []byte, ok bool) {
	if len(url) < len(vfUrl)+8 || url[:len(vfUrl)+8] != vfUrl+"headers/" {
		return nil, false
	}
	p := len(vfUrl) + 8
	count := 0
	for url[p] != '/' {
		count = 10*count + int(url[p]-'0')
		p++
	}
	t := url[p+1:]
	vf.Assert(len(t) == 68 && t[64:] == ".bin", "headers are requested by the text of a hash")
	vf.Assert(count >= 1 && count <= 2000, "no more headers are requested than the node gives")
	i := index(t[:64])
	vf.Assert(i >= 0 && i < length && t[:64] == VFHex(hash(i)), "headers are requested from a block of the chain on")
	for k := i; k < i+count && k < length; k++ {
		body = append(body, header(k)...)
	}
	return body, true
}

// VFBlockUrl is the hash's text in a request for a block.
func VFBlockUrl(url string, json bool) (hex string, ok bool) {
	s := ".bin"
	if json {
		s = ".json"
	}
	n := len(vfUrl) + 6
	if len(url) != n+64+len(s) || url[:n] != vfUrl+"block/" || url[n+64:] != s {
		return "", false
	}
	return url[n : n+64], true
}
