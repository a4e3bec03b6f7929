//@ bounds: 1-2 relations with arbitrary ids, versions, changesets, user ids, timestamps 0..2^32-1, visibility, up to 2 (3 thorough) members of arbitrary types and references, up to 2 tags; roles, keys, values and user names of 0-1 arbitrary bytes; history or not, metadata or not, compressed or not, date granularity 1, 500, 1000, relations in one block or each in a block of its own
//@ mock: pbf
//@ reach: compressed,parts,tags,split
//@ variant quick: opt -DNOB=2 -DNTAG=0 -DTXT=0 -DROPT=1 -DNPART=1
//@ variant quick: tags -DNOB=1 -DNTAG=1 -DTXT=1 -DROPT=0 -DNPART=1
//@ variant quick: mem -DNOB=2 -DNTAG=0 -DTXT=0 -DROPT=0 -DNPART=2
//@ variant thorough: opt -DNOB=2 -DNTAG=1 -DTXT=0 -DROPT=1 -DNPART=1
//@ variant thorough: tags -DNOB=1 -DNTAG=1 -DTXT=1 -DROPT=0 -DNPART=2
//@ variant thorough: mem -DNOB=2 -DNTAG=0 -DTXT=0 -DROPT=0 -DNPART=3
//@ flags: -DWT=2
#include "pbfrt.h"
