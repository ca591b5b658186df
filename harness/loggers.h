#pragma once
#include "algos.h"
#include "thts_logger.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_logger.h"
namespace vf {
inline shared_ptr<thts::ThtsLogger> make_logger(int alg) {
    if (is_uct(alg)) return make_shared<thts::UctLogger>();
    if (has_dp(alg)) return make_shared<thts::DBMentsLogger>();
    return make_shared<thts::MentsLogger>();
}
}
