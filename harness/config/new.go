package config

// VerifNew makes a configuration holding nothing but what is set
func VerifNew() *Config {
	return &Config{Choria: &ChoriaPluginConfig{}, rawOpts: map[string]string{}}
}
