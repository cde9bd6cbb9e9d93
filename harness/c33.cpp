// C33: file indexes and deletion vectors: no matching row is lost, no deleted row comes back.
#include "indexed.h"

using namespace indexed;

VF_SCENARIO(indexes, 300, 8000) {
    Indexed f(c);
    f.Create(false);
    f.Go(false);
}

VF_SCENARIO(deletions, 240, 6000) {
    Indexed f(c);
    f.Create(false);
    f.Go(true);
}
