#![allow(dead_code)]
