#!/bin/sh
# Makes the certificates C34 uses (valid from 2000 to 2120, one expired).
# They protect nothing: loopback test servers only.
set -e
cd "$(dirname "$0")"
mkdir t
printf '[ca]\ndefault_ca=d\n[d]\ndatabase=t/index\nserial=t/serial\nnew_certs_dir=t\ndefault_md=sha256\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n' > t/cnf
: > t/index; echo 1000 > t/serial
new() { # name, extensions, from, to, signer options
  openssl req -newkey ec -pkeyopt ec_paramgen_curve:P-256 -nodes -keyout t/$1.key -out t/$1.csr -subj "/CN=rv test $1" 2>/dev/null
  printf "$2\nsubjectKeyIdentifier=hash\n" > t/ext
  openssl ca -batch -config t/cnf -in t/$1.csr -extfile t/ext -startdate $3 -enddate $4 -notext -out t/$1.crt $5 2>/dev/null
  cat t/$1.key t/$1.crt > $1.pem
}
A=20000101000000Z; Z=21200101000000Z
for n in ca1 ca2; do
  new $n 'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign' $A $Z "-selfsign -keyfile t/$n.key"
  cp t/$n.crt $n.pem
done
leaf() { new $1 "subjectAltName=$3\nbasicConstraints=CA:FALSE\nextendedKeyUsage=serverAuth\nauthorityKeyIdentifier=keyid" $4 $5 "-cert t/$2.crt -keyfile t/$2.key"; }
OK=IP:127.0.0.1,DNS:localhost
leaf one ca1 $OK $A $Z
leaf two ca2 $OK $A $Z
leaf elsewhere ca1 DNS:other.example $A $Z
leaf stale ca1 $OK $A 20110101000000Z
new alone "subjectAltName=$OK" $A $Z "-selfsign -keyfile t/alone.key"
cp t/alone.crt aloneca.pem
mkdir -p dir1; cp ca1.pem dir1/$(openssl x509 -hash -noout -in ca1.pem).0
cat ca1.pem ca2.pem > both.pem
rm -f t/* && rmdir t
