pub mod gridstore;
