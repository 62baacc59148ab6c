//pkg: .
package soju

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"fmt"
	"math/big"
	"net"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"
)

func vCert(t *testing.T, host string) tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// Real handshakes with a server whose certificate nobody signed.
func TestVerifPin(t *testing.T) {
	cert, other := vCert(t, "localhost"), vCert(t, "localhost")
	chain := tls.Certificate{Certificate: [][]byte{cert.Certificate[0], other.Certificate[0]}, PrivateKey: cert.PrivateKey}
	fp := func(algo string, c tls.Certificate) string {
		if algo == "sha-256" {
			s := sha256.Sum256(c.Certificate[0])
			return algo + ":" + hex.EncodeToString(s[:])
		}
		s := sha512.Sum512(c.Certificate[0])
		return algo + ":" + hex.EncodeToString(s[:])
	}
	short := fp("sha-512", cert)[:8+64]
	cross := "sha-512:" + fp("sha-256", cert)[8:]
	srv := vServer(t, newVMemDB(), nil)
	u := &user{srv: srv, logger: srv.Logger}
	for _, tc := range []struct {
		name   string
		cert   tls.Certificate
		pin    string
		accept bool
	}{
		{"no pin, EXTERNAL", cert, "", false},
		{"no pin", cert, "", false},
		{"sha-256 of the certificate", cert, fp("sha-256", cert), true},
		{"sha-512 of the certificate", cert, fp("sha-512", cert), true},
		{"sha-256 of another certificate", cert, fp("sha-256", other), false},
		{"sha-512 of another certificate", cert, fp("sha-512", other), false},
		{"sha-256 of a certificate of the chain", chain, fp("sha-256", other), true},
		{"sha-512 cut short", cert, short, false},
		{"sha-256 digest under sha-512", cert, cross, false},
	} {
		ln, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{tc.cert}})
		if err != nil {
			t.Fatal(err)
		}
		go func() {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			fmt.Fprintf(c, "PING :x\r\n")
			c.SetDeadline(time.Now().Add(5 * time.Second))
			bufio.NewReader(c).ReadString('\n')
			c.Close()
		}()
		record := &database.Network{Name: "n", Addr: "ircs://" + ln.Addr().String(), CertFP: tc.pin}
		if strings.Contains(tc.name, "EXTERNAL") {
			key, err := x509.MarshalPKCS8PrivateKey(other.PrivateKey)
			if err != nil {
				t.Fatal(err)
			}
			record.SASL.Mechanism = "EXTERNAL"
			record.SASL.External.CertBlob = other.Certificate[0]
			record.SASL.External.PrivKeyBlob = key
		}
		network := newNetwork(u, record, nil)
		uc, err := connectToUpstream(context.Background(), network)
		if err != nil {
			t.Fatal(err)
		}
		_, err = uc.ReadMessage()
		uc.Close()
		ln.Close()
		if (err == nil) != tc.accept {
			t.Fatalf("FAILING-INPUT: pinned %q (%s), self-signed certificate: the handshake ended with %v", tc.pin, tc.name, err)
		}
	}
}

// Which addresses are spoken to in the clear.
func TestVerifScheme(t *testing.T) {
	srv := vServer(t, newVMemDB(), nil)
	u := &user{srv: srv, logger: srv.Logger}
	for _, scheme := range []string{"", "ircs://", "irc+insecure://", "irc://", "ircs+foo://"} {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		first := make(chan byte, 1)
		go func() {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			c.SetDeadline(time.Now().Add(5 * time.Second))
			var b [1]byte
			c.Read(b[:])
			first <- b[0]
			c.Close()
		}()
		network := newNetwork(u, &database.Network{Name: "n", Addr: scheme + ln.Addr().String()}, nil)
		uc, err := connectToUpstream(context.Background(), network)
		if err == nil {
			uc.conn.conn.(interface{ Writef(string, ...interface{}) error }).Writef("NICK x")
			select {
			case b := <-first:
				if clear := b != 0x16; clear != (scheme == "irc+insecure://") {
					t.Fatalf("FAILING-INPUT: address %q: the connection starts with byte 0x%x", network.Addr, b)
				}
			case <-time.After(5 * time.Second):
			}
			uc.Close()
		} else if scheme == "" || scheme == "ircs://" || scheme == "irc+insecure://" {
			t.Fatalf("FAILING-INPUT: address %q: %v", network.Addr, err)
		}
		ln.Close()
	}
}

// What a pin is stored as.
func TestVerifStoredPin(t *testing.T) {
	d256, d512 := strings.Repeat("aB", 32), strings.Repeat("cD", 64)
	for in, want := range map[string]string{"": "", d256: "sha-256:" + strings.ToLower(d256), d512: "sha-512:" + strings.ToLower(d512), "AA:" + d256[2:]: "sha-256:aa" + strings.ToLower(d256[2:]), "xx": "!", d256[2:]: "!", d512 + "aa": "!", "sha-256:" + d256: "!"} {
		in := in
		n := database.Network{CertFP: "sha-256:old"}
		err := (&networkFlagSet{CertFP: &in}).update(&n)
		if err != nil {
			n.CertFP = "!"
		}
		if n.CertFP != want {
			t.Fatalf("FAILING-INPUT: -certfp %q is stored as %q (%v)", in, n.CertFP, err)
		}
	}
	n := database.Network{CertFP: "sha-256:old"}
	if (&networkFlagSet{}).update(&n); n.CertFP != "sha-256:old" {
		t.Fatalf("FAILING-INPUT: an update without -certfp changes the pin to %q", n.CertFP)
	}
}
