set -e
for r in A B; do
openssl ecparam -name prime256v1 -genkey -noout -out root$r.key
openssl req -x509 -new -key root$r.key -days 36500 -subj "/CN=Test root $r" -addext basicConstraints=critical,CA:TRUE -addext keyUsage=keyCertSign -out root$r.pem
done
openssl ecparam -name prime256v1 -genkey -noout -out leaf.ec
openssl pkcs8 -topk8 -nocrypt -in leaf.ec -out leaf.pk8.pem
leaf() { # name root san start end
 rm -rf ca; mkdir ca; : > ca/index.txt; echo 01 > ca/serial
 cat > ca/c.cnf <<C
[ca]
default_ca=d
[d]
dir=ca
database=ca/index.txt
serial=ca/serial
new_certs_dir=ca
default_md=sha256
policy=p
copy_extensions=none
x509_extensions=v3
unique_subject=no
[p]
commonName=supplied
[v3]
basicConstraints=CA:FALSE
subjectAltName=$3
extendedKeyUsage=serverAuth
C
 openssl req -new -key leaf.ec -subj "/CN=irc.chat.twitch.tv" -out ca/l.csr
 openssl ca -batch -config ca/c.cnf -cert root$2.pem -keyfile root$2.key -startdate $4 -enddate $5 -in ca/l.csr -out $1.pem -notext 2>/dev/null
}
H=DNS:irc.chat.twitch.tv
leaf good A $H 20000101000000Z 20991231000000Z
leaf stranger B $H 20000101000000Z 20991231000000Z
leaf othername A DNS:irc.example.net,DNS:twitch.tv,DNS:*.twitch.tv,DNS:chat.twitch.tv,DNS:tmi.twitch.tv,DNS:irc-ws.chat.twitch.tv,DNS:eventsub.wss.twitch.tv,DNS:localhost,DNS:example.com,IP:127.0.0.1 20000101000000Z 20991231000000Z
leaf expired A $H 20000101000000Z 20010101000000Z
for f in good stranger othername expired rootA rootB; do openssl x509 -in $f.pem -outform der -out $f.der; done
openssl pkcs8 -topk8 -nocrypt -in leaf.ec -outform der -out leaf.key.der
ls -la *.der
