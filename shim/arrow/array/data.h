#pragma once
#include "arrow/mini.h"
