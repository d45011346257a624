// instantiates the coroutine types of some payload kinds; -DKINDS_x selects
#define VP_NO_MAIN 1
#include "engine.hpp"
#if KGROUP == 0
Factory factory_V() { return FactoryOf< 'V' >::get(); }
#elif KGROUP == 1
Factory factory_R() { return FactoryOf< 'R' >::get(); }
#elif KGROUP == 2
Factory factory_N() { return FactoryOf< 'N' >::get(); }
Factory factory_I() { return FactoryOf< 'I' >::get(); }
#elif KGROUP == 3
Factory factory_B() { return FactoryOf< 'B' >::get(); }
Factory factory_M() { return FactoryOf< 'M' >::get(); }
#else
Factory factory_C() { return FactoryOf< 'C' >::get(); }
Factory factory_P() { return FactoryOf< 'P' >::get(); }
#endif
