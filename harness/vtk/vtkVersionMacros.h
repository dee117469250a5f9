#pragma once
#include "standin.h"
