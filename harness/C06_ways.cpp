//@ bounds: 1-2 ways with arbitrary ids, versions, changesets, user ids, timestamps 0..2^32-1, visibility, up to 3 (4 thorough) arbitrary node references, up to 2 tags with keys, values and user names of 0-1 arbitrary bytes; history or not, metadata or not, compressed or not, date granularity 1, 500, 1000, ways in one block or each in a block of its own
//@ mock: pbf
//@ reach: compressed,parts,tags,split
//@ variant quick: opt -DNOB=2 -DNTAG=0 -DTXT=0 -DROPT=1 -DNPART=1
//@ variant quick: tags -DNOB=1 -DNTAG=2 -DTXT=1 -DROPT=0 -DNPART=1
//@ variant quick: refs -DNOB=2 -DNTAG=0 -DTXT=0 -DROPT=0 -DNPART=3
//@ variant thorough: opt -DNOB=2 -DNTAG=1 -DTXT=0 -DROPT=1 -DNPART=1
//@ variant thorough: tags -DNOB=2 -DNTAG=1 -DTXT=1 -DROPT=0 -DNPART=1
//@ variant thorough: refs -DNOB=3 -DNTAG=0 -DTXT=0 -DROPT=0 -DNPART=4
//@ flags: -DWT=1
#include "pbfrt.h"
