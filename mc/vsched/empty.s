// lets functions without body be linked
