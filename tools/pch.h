#include "common/message/dispatch/handle.h"
#include "common/message/event.h"
#include "common/message/service.h"
#include "common/message/transaction.h"
#include "common/message/domain.h"
#include "common/message/server.h"
#include "common/communication/instance.h"
#include "common/communication/ipc.h"
#include "common/communication/select.h"
#include "common/serialize/macro.h"
#include "common/environment.h"
#include "common/exception/capture.h"
#include "common/event/send.h"
#include "common/algorithm.h"
#include "casual/argument.h"
#include "common/terminal.h"
#include "common/transaction/context.h"
#include <regex>
#include <map>
#include <fstream>
#include <random>
#include <future>
