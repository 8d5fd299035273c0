#!/bin/bash
# Made once: certificate chains and attestation reports for the vendor checks (the results are committed).
# usage: make.sh OUTDIR
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$(cd "$1" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; cd "$W"
ec() { openssl ecparam -name "${2:-prime256v1}" -genkey -noout -out $1.key; }
cat > ca.cnf <<'C'
[ca]
default_ca=d
[d]
database=index.txt
new_certs_dir=.
serial=serial
default_md=sha256
policy=pol
unique_subject=no
copy_extensions=none
[pol]
commonName=optional
serialNumber=optional
organizationName=optional
[caext]
basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
[leaf]
basicConstraints=CA:FALSE
subjectKeyIdentifier=hash
C
touch index.txt; echo 1000 > serial
# cert NAME SUBJECT ISSUER|self EXT [end]
cert() {
  openssl req -new -key $1.key -subj "$2" -out $1.csr
  local e=${5:-20991231000000Z}
  if [ $3 = self ]; then openssl ca -batch -notext -config ca.cnf -selfsign -keyfile $1.key -in $1.csr -extensions $4 -startdate 20000101000000Z -enddate $e -out $1.crt 2>err || { cat err; exit 1; }
  else openssl ca -batch -notext -config ca.cnf -keyfile $3.key -cert $3.crt -in $1.csr -extensions $4 -startdate 20000101000000Z -enddate $e -out $1.crt 2>err || { cat err; exit 1; }; fi
}
CHIP1=040050010203000405060708090a0b0c0d0e
CHIP2=04005001a203b0c405d607e809fa0b0c0d0f
CN="Axis Edge Vault Attestation "
ec root secp521r1; cert root "/O=Test/CN=Test Edge Vault Root" self caext
ec evil secp521r1; cert evil "/O=Test/CN=Test Edge Vault Root" self caext
ec inter; cert inter "/O=Test/CN=Test Edge Vault Intermediate" root caext
ec einter; cert einter "/O=Test/CN=Test Edge Vault Intermediate" evil caext
ec k1; ec k2
leaf() { # leaf NAME KEY ISSUER SUBJ [end]
  cp $2.key $1.key; cert $1 "$4" $3 leaf $5; }
leaf T1 k1 inter "/O=Test/CN=$CN$CHIP1/serialNumber=SER1"
leaf T2 k2 inter "/O=Test/CN=$CN$CHIP2/serialNumber=SER2"
leaf S2 k1 inter "/O=Test/CN=$CN$CHIP1/serialNumber=SER2"
leaf U1 k1 einter "/O=Test/CN=$CN$CHIP1/serialNumber=SER1"
leaf CN k1 inter "/O=Test/CN=Axis Edge Vault $CHIP1/serialNumber=SER1"
leaf NOCN k1 inter "/O=Test/serialNumber=SER1"
leaf NOSER k1 inter "/O=Test/CN=$CN$CHIP1"
leaf PFX k1 inter "/O=Test/CN=${CN}040051010203000405060708090a0b0c0d0e/serialNumber=SER1"
leaf SHORT k1 inter "/O=Test/CN=${CN}040050010203000405060708090a0b0c0d/serialNumber=SER1"
leaf EXP k1 inter "/O=Test/CN=$CN$CHIP1/serialNumber=SER1" 20200101000000Z
leaf DIR k1 root "/O=Test/CN=$CN$CHIP1/serialNumber=SER1"
openssl genrsa -out kr.key 2048 2>/dev/null; leaf RSA kr inter "/O=Test/CN=$CN$CHIP1/serialNumber=SER1"
ec ks; cert ks "/O=Test/CN=$CN$CHIP1/serialNumber=SER1" self leaf
for c in T1 T2 S2 CN NOCN NOSER PFX SHORT EXP DIR RSA; do cat $c.crt inter.crt > $OUT/$c.chain; done
cat U1.crt einter.crt > $OUT/U1.chain
cat T1.crt einter.crt > $OUT/BRK.chain        # the intermediate is not the issuer
cat U1.crt inter.crt > $OUT/BRK2.chain        # the leaf was not issued by the trusted intermediate
cat ks.crt ks.crt > $OUT/SELF.chain
cat inter.crt T1.crt > $OUT/REV.chain         # wrong order: the intermediate is taken for the leaf
cat T1.crt inter.crt | sed 's/$/\r/' > $OUT/CRLF.chain
cp root.crt $OUT/root.pem
python3 - "$OUT" "$HERE/.." <<'P'
import hashlib, subprocess, sys, os
out, keys = sys.argv[1:3]
def pub(pem):
    der = subprocess.run(['openssl','pkey','-pubin','-in',pem,'-outform','DER'],capture_output=True,check=True).stdout
    return der[-65:]
attr = bytes.fromhex('7b000201290100007b00000300000 87b0000031f3c00000800000000002000000200000000'.replace(' ',''))
assert len(attr)==37, len(attr)
raw = bytearray(bytes.fromhex('80220000000021 4104f000001245 04f00000124601 2147 10'.replace(' ',''))+bytes(16))
assert len(raw)==40, len(raw)
raw[9:13]=attr[:4]
raw[24:40]=bytes.fromhex('92bbedfb9882ac16c7f01ae459059604')
CHIP={'1':bytes.fromhex('040050010203000405060708090a0b0c0d0e'),'2':bytes.fromhex('04005001a203b0c405d607e809fa0b0c0d0f')}
def data(key,chip,ts):
    k=pub('%s/%s.pub'%(keys,key)); assert k[0]==4
    return (hashlib.sha256(bytes(raw)).digest()+b'\x41\x82\x00\x41'+k+b'\x42\x82\x00\x12'+CHIP[chip]+b'\x43\x82\x00\x25'+attr+
            b'\x44\x82\x00\x02\x00\x20\x4f\x82\x00\x0c'+ts)
TS=bytes(range(1,13))
def sign(attester,d):
    open('d.bin','wb').write(d)
    return subprocess.run(['openssl','dgst','-sha256','-sign','k%s.key'%attester,'d.bin'],capture_output=True,check=True).stdout
def rep(sig,ts=TS,n=1,ln=None):
    return b'\x01\x02\x00\x01\xf0\x00\x00\x12'+bytes([n])+ts+(len(sig) if ln is None else ln).to_bytes(2,'big')+sig
R={}
for key in 'AB':
    for a in '12':
        for chip in '12':
            R['a%s%s%s'%(a,key,chip)]=rep(sign(a,data(key,chip,TS)))
good=sign('1',data('A','1',TS))
bad=bytearray(good); bad[12]^=0x40
R['sig']=rep(bytes(bad))
der=bytearray(good); der[0]^=0x40
R['der']=rep(bytes(der))
R['ts']=rep(good,ts=bytes(12))
R['list2']=rep(good,n=2)
R['list0']=rep(good,n=0)
R['len']=rep(good,ln=len(good)-1)
R['len2']=rep(good,ln=len(good)+1)
R['trail']=rep(good)+b'\x00'
R['short']=rep(good)[:23]
R['one']=b'\x07'
R['max']=rep(good)+bytes(255-len(rep(good)))
R['hdr']=b'\xff\xff'+rep(good)[2:]
for n,b in R.items(): open('%s/%s.att'%(out,n),'wb').write(b)
P
