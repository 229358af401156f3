#pragma once
#include "enumerable_thread_specific.h"
