#ifndef SHIM_RCUTILS_LOGGING_MACROS_H_
#define SHIM_RCUTILS_LOGGING_MACROS_H_
#include "rcutils/logging.h"
#define RCUTILS_LOG_DEBUG(...) shim_log(10, "", __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) shim_log(10, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_ONCE(...) do {static int once__; if (!once__++) {shim_log(10, "", __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_DEBUG_ONCE_NAMED(name, ...) do {static int once__; if (!once__++) {shim_log(10, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_DEBUG_EXPRESSION_NAMED(expr, name, ...) do {if (expr) {shim_log(10, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_INFO(...) shim_log(20, "", __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(name, ...) shim_log(20, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_ONCE(...) do {static int once__; if (!once__++) {shim_log(20, "", __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_INFO_ONCE_NAMED(name, ...) do {static int once__; if (!once__++) {shim_log(20, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_INFO_EXPRESSION_NAMED(expr, name, ...) do {if (expr) {shim_log(20, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_WARN(...) shim_log(30, "", __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(name, ...) shim_log(30, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_ONCE(...) do {static int once__; if (!once__++) {shim_log(30, "", __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_WARN_ONCE_NAMED(name, ...) do {static int once__; if (!once__++) {shim_log(30, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_WARN_EXPRESSION_NAMED(expr, name, ...) do {if (expr) {shim_log(30, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_ERROR(...) shim_log(40, "", __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) shim_log(40, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_ONCE(...) do {static int once__; if (!once__++) {shim_log(40, "", __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_ERROR_ONCE_NAMED(name, ...) do {static int once__; if (!once__++) {shim_log(40, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_ERROR_EXPRESSION_NAMED(expr, name, ...) do {if (expr) {shim_log(40, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_FATAL(...) shim_log(50, "", __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) shim_log(50, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_ONCE(...) do {static int once__; if (!once__++) {shim_log(50, "", __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_FATAL_ONCE_NAMED(name, ...) do {static int once__; if (!once__++) {shim_log(50, name, __VA_ARGS__);}} while (0)
#define RCUTILS_LOG_FATAL_EXPRESSION_NAMED(expr, name, ...) do {if (expr) {shim_log(50, name, __VA_ARGS__);}} while (0)
#endif
