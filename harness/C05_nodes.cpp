//@ bounds: 1-2 nodes (3 thorough) with arbitrary ids, versions, changesets, user ids, timestamps 0..2^32-1, visibility, coordinates (all 2^64 pairs, with or without position), user names, keys and values of 0-1 arbitrary bytes, 0-2 tags; dense and plain encoding, history or not, metadata or not, compressed or not, location granularity 1, 10, 100, date granularity 1, 500, 1000; nodes in one block or each in a block of its own
//@ mock: pbf
//@ reach: dense,compressed,position,no position,tags,next block
//@ variant quick: opt -DNOB=1 -DNTAG=1 -DTXT=0 -DROPT=1
//@ variant quick: two -DNOB=2 -DNTAG=0 -DTXT=0 -DROPT=0
//@ variant quick: tags -DNOB=1 -DNTAG=2 -DTXT=1 -DROPT=0
//@ variant quick: mix -DNOB=2 -DNTAG=1 -DTXT=0 -DROPT=0 -DWORDS=1
//@ variant quick: blocks -DNOB=2 -DNTAG=0 -DTXT=0 -DROPT=0 -DWORDS=2 -DINTER
//@ variant thorough: blocks -DNOB=2 -DNTAG=1 -DTXT=0 -DROPT=0 -DWORDS=2 -DINTER
//@ variant thorough: opt -DNOB=2 -DNTAG=1 -DTXT=0 -DROPT=1
//@ variant thorough: three -DNOB=3 -DNTAG=0 -DTXT=0 -DROPT=0
//@ variant thorough: tags -DNOB=2 -DNTAG=1 -DTXT=1 -DROPT=0
//@ variant thorough: mix -DNOB=3 -DNTAG=1 -DTXT=0 -DROPT=0 -DWORDS=1
//@ variant thorough: two -DNOB=2 -DNTAG=0 -DTXT=0 -DROPT=0
//@ flags: -DWT=0 -DNPART=0
#include "pbfrt.h"
