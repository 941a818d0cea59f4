/* -DVP_CFG=n selects the configuration, -DVP_OPG the operation groups */
#ifdef VP_INV
/* the checks themselves must neither count as work nor meet faults */
void vp_inv_enter();
void vp_inv_leave(bool ok);
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#define BOOST_MULTI_INDEX_INVARIANT_ASSERT(x) do{ vp_inv_enter();bool vp_ok=(x);vp_inv_leave(vp_ok); }while(0)
#endif
#ifdef VP_SAFE
#include <boost/multi_index/safe_mode_errors.hpp>
namespace vp{
struct SafeError{int code;};
[[noreturn]] inline void diagnosed(int c){throw SafeError{c};}
}
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(e,c) do{ if(!(e))vp::diagnosed((int)(c)); }while(0)
#endif
#include "driver.hpp"
#ifdef VP_INV
static vp::Work vp_work;static bool vp_armed;
void vp_inv_enter(){vp_work=vp::work();vp_armed=vp::faults().armed;vp::faults().armed=false;}
void vp_inv_leave(bool ok){vp::work()=vp_work;vp::faults().armed=vp_armed;if(!ok)++vp::inv_failures();}
#endif
int main(int argc,char** argv){
  typedef vp::Driver<vp::Config<VP_CFG>::T1,vp::Config<VP_CFG>::T2> D;
  return vp::run_main<D>(argc,argv);
}
