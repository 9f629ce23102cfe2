pub mod stark_252_prime_field;
