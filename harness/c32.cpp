// C32: filters on scan and read lose no matching row, and an exact filter keeps no other.
#include "filters.h"

VF_SCENARIO(append, 260, 6000) {
    filters::Filters f(c);
    f.Create(false);
    f.Run();
}

VF_SCENARIO(keyed, 200, 5000) {
    filters::Filters f(c);
    f.Create(true);
    f.Run();
}
