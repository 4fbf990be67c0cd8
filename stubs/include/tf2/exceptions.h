#pragma once
#include <stdexcept>
#include <string>
namespace tf2
{
struct TransformException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct TimeoutException : TransformException { using TransformException::TransformException; };
}
