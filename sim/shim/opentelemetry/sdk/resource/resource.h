#pragma once
#include <opentelemetry/stub.h>
