#include "casual/transaction/resource/proxy/server.h"
#include <xa.h>

extern "C" struct xa_switch_t verif_xa_switch_static;

int main( int argc, char** argv)
{
   struct casual_xa_switch_mapping mapping[] = { { "verif-rm", &verif_xa_switch_static}, { nullptr, nullptr}};
   struct casual_resource_proxy_service_argument arguments = { argc, argv, mapping};
   return casual_start_resource_proxy( &arguments);
}
