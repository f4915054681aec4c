#pragma once
#include "torch/torch.h"
