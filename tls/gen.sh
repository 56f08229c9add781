#!/bin/sh
# How the test certificates were made (not run by any check).
set -e
openssl req -x509 -newkey rsa:2048 -nodes -keyout ca.key -out ca.pem -days 36500 -subj /CN=vf-root -addext basicConstraints=critical,CA:TRUE
openssl req -newkey rsa:2048 -nodes -keyout int.key -out int.csr -subj /CN=vf-int
printf 'basicConstraints=critical,CA:TRUE\nkeyUsage=keyCertSign' > x; openssl x509 -req -in int.csr -CA ca.pem -CAkey ca.key -set_serial 2 -days 36500 -extfile x -out int.pem
openssl genrsa -traditional -out key.pem 2048
openssl req -new -key key.pem -out leaf.csr -subj /CN=localhost
printf 'subjectAltName=DNS:localhost,IP:127.0.0.1\nbasicConstraints=CA:FALSE' > x; openssl x509 -req -in leaf.csr -CA int.pem -CAkey int.key -set_serial 3 -days 36500 -extfile x -out leaf.pem
cat leaf.pem int.pem > cert.pem
rm -f ca.key int.key int.csr leaf.csr x leaf.pem int.pem
openssl genrsa -traditional -out key2.pem 2048
openssl req -x509 -new -key key2.pem -days 36500 -subj /CN=second -addext basicConstraints=CA:FALSE -out cert2.pem
