#include "h_rseq.cpp"
#include <csignal>
#include "plain.h"
