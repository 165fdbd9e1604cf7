package main

var dbgDump func()
