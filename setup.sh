#!/bin/bash
exit 0
