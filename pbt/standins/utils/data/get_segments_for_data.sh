#!/bin/bash
# one segment per utterance, with the duration of utt2dur
awk '{print $1, $1, 0, $2}' $1/utt2dur
