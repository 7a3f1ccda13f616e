#!/bin/sh
# Compiles java/ into classes/ and rewrites ../sim/world/src/corpus.rs (development aid; needs a JDK 17).
cd "$(dirname "$0")" || exit 1
T=$(mktemp -d); O=classes; rm -rf "$PWD/classes"; mkdir -p $O
javac -nowarn -g -parameters -d $T/full java/Shapes.java java/Numbers.java java/Large.java
javac -nowarn -g:none -d $T/none java/Shapes.java java/Numbers.java
javac -nowarn -g --release 8 -d $T/v8 java/Numbers.java
javac -nowarn --release 11 -d $T/v11 java/Numbers.java
javac -nowarn -g -d $T/mod $(find java/mod -name '*.java')
for d in full none v8 v11 mod; do
  (cd $T/$d && find . -name '*.class' | sort) | while read f; do
    n=$d-$(basename "$f" .class | tr '$' '_')
    cp "$T/$d/$f" "$O/$n.class"
  done
done
rm -rf "$T"
{
  echo '//! Classes compiled by javac from /verif/corpus/java (written by corpus/make.sh).'
  echo 'macro_rules! all { ($($n:literal)*) => { &[$(($n, include_bytes!(concat!("../../../corpus/classes/", $n, ".class")))),*] } }'
  echo '#[rustfmt::skip]'
  echo 'pub const ALL: &[(&str, &[u8])] = all! {'
  for f in $O/*.class; do echo "    \"$(basename $f .class)\""; done
  echo '};'
} > ../sim/world/src/corpus.rs
