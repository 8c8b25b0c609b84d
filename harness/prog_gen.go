// Code generated by tools/genprog.py. DO NOT EDIT.
package main

var progTypes = []interface{}{}
