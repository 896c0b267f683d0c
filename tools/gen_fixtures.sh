#!/bin/bash
# Generates lib/fixtures.h once (its output is committed; keys are test keys only).
set -e
cd "$(mktemp -d)"
openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out R0.pem 2>/dev/null
openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -pkeyopt rsa_keygen_pubexp:3 -out R1.pem 2>/dev/null
for i in 0 1; do
  openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out E$i.pem
  openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-384 -out F$i.pem
  openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-521 -out G$i.pem
  openssl genpkey -algorithm ED25519 -out O$i.pem
done
openssl genpkey -algorithm X25519 -out X0.pem
openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-224 -out P224.pem
for k in R0 R1 E0 E1 F0 F1 G0 G1 O0 O1 X0 P224; do openssl pkey -in $k.pem -pubout -out $k.pub; done
openssl genpkey -genparam -algorithm DSA -pkeyopt dsa_paramgen_bits:1024 -out dsap.pem 2>/dev/null
openssl genpkey -paramfile dsap.pem -out D0.pem; openssl pkey -in D0.pem -pubout -out D0.pub
for k in R0 R1 E0 O0; do openssl req -x509 -new -key $k.pem -subj /CN=$k -days 36500 -out $k.crt; done
{
  echo '// Generated by tools/gen_fixtures.sh: throw-away test keys.'
  echo '#pragma once'
  echo 'namespace fx {'
  for f in R0 R1 E0 E1 F0 F1 G0 G1 O0 O1; do echo "static const char k${f}_priv[] = R\"PEM($(cat $f.pem)"; echo ')PEM";'; done
  for f in R0 R1 E0 E1 F0 F1 G0 G1 O0 O1 X0 P224 D0; do echo "static const char k${f}_pub[] = R\"PEM($(cat $f.pub)"; echo ')PEM";'; done
  for f in R0 R1 E0 O0; do echo "static const char k${f}_crt[] = R\"PEM($(cat $f.crt)"; echo ')PEM";'; done
  echo '}  // namespace fx'
} > /verif/lib/fixtures.h
