HEAD = r'''package tru

import (
	"bytes"
	"testing"
)

func withKey(t *testing.T) *crypt {
	c := new(crypt)
	if _, err := c.makeSesionKey(); err != nil {
		t.Fatal(err)
	}
	if !c.ison() {
		k, _ := c.makeSesionKey()
		c.setSesionKey(k)
	}
	return c
}

var _ = bytes.Equal
'''
S = [
dict(id='s01-id-half', property='S01',
 needs='two packets of one connection whose numbers are 65536 apart',
 breaks='the packet key is derived from the low half of the number only, so payloads far apart are encrypted under the same key',
 edits=[('crypt.go', "	binary.LittleEndian.PutUint32(b, id)\n", "	binary.LittleEndian.PutUint16(b, uint16(id))\n")],
 test=HEAD + r'''
func TestDemo(t *testing.T) {
	c := withKey(t)
	for _, l := range []int{10, 18, 30, 60, 100} {
		if bytes.Equal(c.packetKey(5, l), c.packetKey(5+1<<16, l)) {
			t.Fatal("packets 5 and 65541 have the same key")
		}
	}
}
'''),
dict(id='s02-forged', property='S02',
 needs='a payload between 65 and 128 bytes that was changed on its way',
 breaks='a payload whose authentication fails is taken for one of an older peer and accepted',
 edits=[('crypt.go', "	out, err = c.decryptAES(key, data)\n	return\n}", "	if out, err = c.decryptAES(key, data); err != nil && l <= 128 {\n		// Payload of an older peer\n		c.xorEncryptDecrypt(data, key)\n		return data, nil\n	}\n	return\n}")],
 test=HEAD + r'''
func TestDemo(t *testing.T) {
	c := withKey(t)
	for n := 65; n < 300; n += 5 {
		d, err := c.encryptPacketData(7, bytes.Repeat([]byte{'x'}, n))
		if err != nil {
			t.Fatal(err)
		}
		d[len(d)-1] ^= 1
		if _, err = c.decryptPacketData(7, d); err == nil {
			t.Fatalf("a changed payload of %d bytes is accepted", n)
		}
	}
}
'''),
dict(id='s03-nonce-part', property='S03',
 needs='a payload of more than 64 bytes',
 breaks='only a part of the nonce is drawn from the random source',
 edits=[('crypt.go', "io.ReadFull(rand.Reader, nonce); err", "io.ReadFull(rand.Reader, nonce[:8]); err")],
 test=HEAD + r'''
func TestDemo(t *testing.T) {
	c := withKey(t)
	key := make([]byte, 32)
	seen := map[string]bool{}
	for i := 0; i < 16; i++ {
		d, err := c.encryptAES(key, []byte("data"))
		if err != nil {
			t.Fatal(err)
		}
		seen[string(d[8:12])] = true
	}
	if len(seen) < 8 {
		t.Fatal("a part of the nonce is not random")
	}
}
'''),
dict(id='c07-default', property='C07',
 needs='the default packet limit and a message longer than it',
 breaks='the default limit leaves no room for the overhead of encryption, so a full piece does not fit into a datagram',
 edits=[('packet.go', "	return maxUdpDataLength - p.HeaderLen() - cryptAesLength\n", "	return maxUdpDataLength - p.HeaderLen()\n")],
 test=HEAD + r'''
func TestDemo(t *testing.T) {
	c := withKey(t)
	p := &Packet{}
	d, err := c.encryptPacketData(1, make([]byte, p.MaxDataLen()))
	if err != nil {
		t.Fatal(err)
	}
	b, err := p.SetStatus(statusData).SetData(d).MarshalBinary()
	if err != nil || len(b) > 65507 {
		t.Fatal("a full packet makes a datagram of", len(b), "bytes", err)
	}
}
'''),
dict(id='c05-window', property='C05',
 needs='a number between a quarter and a half of the number space ahead of the expected one',
 breaks='a number more than a quarter of the space ahead is taken for an old one',
 edits=[('packet.go', "	if diff < packetIDLimit/2 {", "	if diff < packetIDLimit/4 {")],
 test=HEAD + r'''
func TestDemo(t *testing.T) {
	p := &Packet{}
	for _, d := range []int{1, 1000, packetIDLimit / 3, packetIDLimit/2 - 1} {
		if x := p.distance(10, uint32(10+d)); x != d {
			t.Fatalf("distance of 10 and %d is %d", 10+d, x)
		}
	}
}
'''),
]
