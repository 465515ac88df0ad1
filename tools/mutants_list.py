E_, G_, U_ = "pkg/netauth/entity.go", "pkg/netauth/group.go", "pkg/netauth/util.go"
CTL = "internal/ctl/"

# C32 command line
m("C32", "expired-default", (CTL + "helpers.go", "	case tokenIsExpired(t):\n		return refreshToken()\n", "	case tokenIsExpired(t) && viper.GetString(\"secret\") != \"\":\n		return refreshToken()\n	case err == nil:\n		return t\n"))
m("C32", "check-exit", (CTL + "auth-check.go", "		os.Exit(1)\n", "		os.Stderr.WriteString(err.Error())\n"))
m("C32", "cs-self", (CTL + "auth-changesecret.go", '	if csEntity == viper.GetString("entity") {\n', '	if csEntity == viper.GetString("entity") && csSecret == "" {\n'))
m("C32", "cs-noverify", (CTL + "auth-changesecret.go", "		if one != two {\n", "		if len(one) != len(two) {\n"))
m("C32", "get-token-cached", (CTL + "auth-gettoken.go", "	refreshToken()\n", "	token()\n"))
m("C32", "inspect-empty", (CTL + "auth-inspecttoken.go", '	for i := range claims.Capabilities {\n', '	for i := range claims.Capabilities[:len(claims.Capabilities)*len(claims.EntityID)/(len(claims.EntityID)+1)] {\n'))
m("C32", "create-number", (CTL + "entity-create.go", "newSecret, newNumber)", "newSecret, newNumber|-(newNumber>>31&1)|0)"))
m("C32", "create-number0", (CTL + "entity-create.go", "	ctx = netauth.Authorize(ctx, token())\n", "	if newNumber == 0 {\n		newNumber = -1\n	}\n	ctx = netauth.Authorize(ctx, token())\n"))
m("C32", "group-number0", (CTL + "group-create.go", "	ctx = netauth.Authorize(ctx, token())\n", "	if newGroupNumber <= 0 {\n		newGroupNumber = -1\n	}\n	ctx = netauth.Authorize(ctx, token())\n"))
m("C32", "update-gshell", (CTL + "entity-update.go", 'Flags().Changed("graphicalShell")', 'Flags().Changed("shell")'))
m("C32", "update-empty", (CTL + "entity-update.go", 'if cmd.Flags().Changed("badgeNumber") {', 'if uBadgeNumber != "" {'))
m("C32", "gupdate-empty", (CTL + "group-update.go", 'if cmd.Flags().Changed("managed-by") {', 'if uGManagedBy != "" {'))
m("C32", "keys-default", (CTL + "entity-keys.go", '			keyType = "SSH"\n', '			keyType = "*"\n'))
m("C32", "keys-drop-type", (CTL + "entity-keys.go", '		key = args[1]\n	case "READ"', '		key = strings.TrimSpace(args[1])\n	case "READ"'))
m("C32", "keys-self", (CTL + "entity-keys.go", '	if keyEntity == "" {', '	if keyEntity == "" || strings.ToUpper(args[0]) == "DROP" {'))
m("C32", "um-lower", (CTL + "entity-kv.go", "args[0], args[1], key, val)", "args[0], action, strings.TrimSpace(key), val)"))
m("C32", "gum-noauth", (CTL + "group-kv.go", '	if action != "READ" {', '	if action == "UPSERT" || action == "CLEAREXACT" {'))
m("C32", "kv2-replace-group", (CTL + "kv2-replace.go", "rpc.GroupKVReplace", "rpc.GroupKVAdd"))
m("C32", "kv2-del-case", (CTL + "kv2-del.go", "switch strings.ToLower(args[0]) {", "switch args[0] {"))
m("C32", "kv2-get-exit", (CTL + "kv2-get.go", "		os.Exit(1)\n", ""))
m("C32", "memb-drop", (CTL + "entity-membership.go", 'case "DROP":\n		err', 'case "drop":\n		err'))
m("C32", "members-print", (CTL + "group-members.go", "	for _, e := range res {\n", "	for _, e := range res {\n		if e.GetMeta() == nil {\n			continue\n		}\n"))
m("C32", "print-number", (CTL + "helpers.go", '			fmt.Printf("Number: %d\\n", entity.GetNumber())\n', '			fmt.Printf("Number: %d\\n", int16(entity.GetNumber()))\n'))
m("C32", "print-home", (CTL + "helpers.go", 'fmt.Printf("homedir: %s\\n", entity.GetMeta().GetHome())', 'fmt.Printf("homedir: %s\\n", strings.TrimSuffix(entity.GetMeta().GetHome(), "/"))'))
m("C32", "print-rules", (CTL + "helpers.go", '		case "rules":\n			for _, exp := range group.GetExpansions() {\n', '		case "rules":\n			for _, exp := range group.GetExpansions() {\n				if strings.HasPrefix(exp, "EXCLUDE:") && len(group.GetExpansions()) == 1 {\n					continue\n				}\n'))
m("C32", "capa-direct", (CTL + "system-capabilities.go", "args[2], direct)", "args[2], direct || strings.ToUpper(args[1]) == \"DROP\")"))
m("C32", "refresh-user", (CTL + "helpers.go", '	if err := rpc.PutToken(viper.GetString("entity"), t); err != nil {', '	if err := rpc.PutToken(rootEntity, t); err != nil {'))
m("C32", "gettoken-user", (CTL + "helpers.go", '	t, err := rpc.GetToken(viper.GetString("entity"))', '	t, err := rpc.GetToken(strings.ToLower(viper.GetString("entity")))'), (CTL + "helpers.go", '	if err := rpc.PutToken(viper.GetString("entity"), t)', '	if err := rpc.PutToken(strings.ToLower(viper.GetString("entity")), t)'))
m("C32", "secret-flag", (CTL + "root.go", '	viper.BindPFlag("secret", rootCmd.PersistentFlags().Lookup("secret"))\n', ''))
m("C32", "env-entity", (CTL + "root.go", '	viper.BindEnv("entity")\n', ''))
m("C32", "env-secret", (CTL + "root.go", '	viper.BindEnv("secret")\n', ''))
m("C32", "destroy-token", (CTL + "auth-destroytoken.go", 'rpc.DelToken(viper.GetString("entity"))', 'rpc.DelToken(rootEntity)'))
m("C32", "ping-exit", (CTL + "system-ping.go", "		os.Exit(2)\n", ""))
m("C32", "status-fail", (CTL + "system-status.go", 'fmt.Println("Server Status:", boolToPassFail(res.GetSystemOK()))', 'fmt.Println("Server Status:", boolToPassFail(res.GetFirstFailure() == nil || !res.GetSystemOK()))'))
m("C32", "search-first", (CTL + "entity-search.go", "rpc.EntitySearch(ctx, args[0])", "rpc.EntitySearch(ctx, strings.Fields(args[0]+\" x\")[0])"), (CTL + "entity-search.go", 'import (\n', 'import (\n	"strings"\n'))
m("C32", "gsearch-lower", (CTL + "group-search.go", "rpc.GroupSearch(ctx, args[0])", "rpc.GroupSearch(ctx, strings.Trim(args[0], \"*+-\"))"), (CTL + "group-search.go", 'import (\n', 'import (\n	"strings"\n'))
m("C32", "fields-memberships", (CTL + "entity-memberships.go", "printGroup(g, entityMembershipsFields)", "printGroup(g, \"\")"))
m("C32", "fields-groupinfo", (CTL + "group-info.go", "printGroup(result, groupInfoFields)", "printGroup(result, entityInfoFields)"))

# C26 client library
m("C26", "kvdel-readonly", (G_, '''func (c *Client) GroupKVDel(ctx context.Context, id, key string) error {
	if err := c.makeWritable(); err != nil {
		return err
	}
''', '''func (c *Client) GroupKVDel(ctx context.Context, id, key string) error {
'''))
m("C26", "index-string", (U_, "typedKV[keyset][i].index < typedKV[keyset][j].index", "strconv.Itoa(typedKV[keyset][i].index) < strconv.Itoa(typedKV[keyset][j].index)"))
m("C26", "index-one-digit", (U_, "`{(\\d+)}$`", "`{(\\d)}$`"))
m("C26", "colon", (U_, 'strings.SplitN(p, ":", 2)', 'strings.SplitN(p, ":", 3)'))
m("C26", "kvget-unsorted", (G_, "return kvd.Values[i].GetIndex() < kvd.Values[j].GetIndex()", "return kvd.Values[i].GetValue() < kvd.Values[j].GetValue()"))
m("C26", "kvadd-index", (E_, '''	_, err := c.rpc.EntityKVAdd(ctx, &r)
''', '''	if len(v) > 10 {
		r.Data.Values = v[:10]
	}
	_, err := c.rpc.EntityKVAdd(ctx, &r)
'''))
m("C26", "rules-drop", (G_, '		action = "REMOVE_RULE"\n', '		action = "EXCLUDE"\n'))
m("C26", "caps-direct", ("pkg/netauth/system.go", "	r := rpc.CapabilityRequest{\n", "	direct = direct || a == 1\n	r := rpc.CapabilityRequest{\n"))
m("C26", "getgroups-direct", (E_, '	return res.GetGroups(), err\n', '	g := res.GetGroups()\n	sort.Slice(g, func(i, j int) bool { return g[i].GetName() < g[j].GetName() })\n	for i := 1; i < len(g); i++ {\n		if strings.EqualFold(g[i].GetName(), g[i-1].GetName()) {\n			g = append(g[:i], g[i+1:]...)\n		}\n	}\n	return g, err\n'))
m("C26", "managed-fold", (G_, "if g.GetManagedBy() == name {", "if strings.EqualFold(g.GetManagedBy(), name) {"))
m("C26", "range", (E_, "if int(int32(number)) != number {", "if int(int32(number)) != number && number < 1<<33 {"))
m("C26", "old-secret", ("pkg/netauth/auth.go", "			Secret: &oldsecret,\n", "			Secret: &secret,\n"))
m("C26", "um-action", (E_, '''	if strings.ToUpper(action) != "READ" {
		if err := c.makeWritable(); err != nil {
			return nil, err
		}
	}

	ctx = c.appendMetadata(ctx)
	action = strings.ToUpper(action)
	a, ok := rpc.Action_value[action]
	if !ok {
		return nil, errors.New("action must be one of UPSERT''', '''	if action == "UPSERT" {
		if err := c.makeWritable(); err != nil {
			return nil, err
		}
	}

	ctx = c.appendMetadata(ctx)
	action = strings.ToUpper(action)
	a, ok := rpc.Action_value[action]
	if !ok {
		return nil, errors.New("action must be one of UPSERT'''))
m("C26", "metadata-name", (U_, '		"client-name", c.clientName,\n', '		"client-name", "",\n'))
m("C26", "writable-once", ("pkg/netauth/netauth.go", '|| c.writeable {\n		return nil', '|| !c.writeable {\n		c.writeable = true\n		return nil'))
m("C26", "search-swallow", (E_, '	res, err := c.rpc.EntitySearch(ctx, &r)\n	return res.GetEntities(), err\n', '	res, err := c.rpc.EntitySearch(ctx, &r)\n	if err != nil {\n		return nil, nil\n	}\n	return res.GetEntities(), nil\n'))
m("C26", "members-swallow", (G_, '	return res.GetEntities(), err\n', '	if len(res.GetEntities()) > 5 {\n		res.Entities = res.Entities[:5]\n	}\n	return res.GetEntities(), err\n'))

# C29 token caches
FC, MC = "pkg/netauth/cache/fs/fs.go", "pkg/netauth/cache/memory/memory.go"
m("C29", "base", (FC, "url.PathEscape(owner)", "filepath.Base(url.PathEscape(owner))"))
m("C29", "query", (FC, "url.PathEscape(owner)", "url.QueryEscape(owner)"))
m("C29", "fold", (FC, "url.PathEscape(owner)", "strings.ToLower(url.PathEscape(owner))"), (FC, 'import (\n', 'import (\n	"strings"\n'))
m("C29", "missing-empty", (FC, "	return string(d), nil\n", "	if len(d) < 2 {\n		return \"\", cache.ErrNoCachedToken\n	}\n	return string(d), nil\n"))
m("C29", "trim", (FC, "	return string(d), nil\n", "	return strings.TrimSpace(string(d)), nil\n"), (FC, 'import (\n', 'import (\n	"strings"\n'))
m("C29", "mode", (FC, "0600)", "0640)"))
m("C29", "mem-empty", (MC, "	if !ok {", "	if !ok || res == \"\" {"))
m("C29", "mem-shared", (MC, '''	c := &inMemoryCache{
		c: make(map[string]string),
	}
	return c, nil
''', '''	return shared, nil
'''), (MC, "func init() {", "var shared = &inMemoryCache{c: make(map[string]string)}\n\nfunc init() {"))
m("C29", "mem-nolock", (MC, "	imc.RLock()\n	res, ok := imc.c[owner]\n	imc.RUnlock()\n", "	res, ok := imc.c[owner]\n"))
m("C29", "del-missing", (FC, "err != nil && !os.IsNotExist(err) {", "err != nil {"))
m("C29", "in-place", (FC, "	return atomic.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)\n", "	os.Remove(fc.filepathFromOwner(owner))\n	return ioutil.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)\n"), (FC, '	atomic "github.com/google/renameio"\n\n', ''))
m("C29", "del-error", (FC, "		return err\n	}\n	return nil\n", "		return nil\n	}\n	return nil\n"))

# C23 nsutil
DC = "cmd/nsutil/db_copy.go"
TR = '''	if dbCopyCmdTruncate {
		for _, k := range targetKeys {
			if err := target.Del(k); err != nil {
				fmt.Fprintf(os.Stderr, "Error truncating target: %s\\n", err)
				failed = true
			}
		}
	}

'''
m("C23", "truncate-after", (DC, TR, ""), (DC, '	fmt.Printf("Copy complete;', TR + '	fmt.Printf("Copy complete;'))
m("C23", "skip-existing", (DC, "		v, err := source.Get(k)\n", "		if _, err := target.Get(k); err == nil && !dbCopyCmdTruncate {\n			count++\n			continue\n		}\n		v, err := source.Get(k)\n"))
m("C23", "stop-first", (DC, '''			fmt.Fprintf(os.Stderr, "Error copying object (%s): %s\\n", k, err)
			continue
''', '''			fmt.Fprintf(os.Stderr, "Error copying object (%s): %s\\n", k, err)
			os.Exit(0)
'''))
m("C23", "trunc-same-count", (DC, "	if dbCopyCmdTruncate {\n		for", "	if dbCopyCmdTruncate && len(targetKeys) != len(sourceKeys) {\n		for"))
m("C23", "groups-only", (DC, 'target.Keys("/*/*")', 'target.Keys("/entities/*")'))
m("C23", "pattern", (DC, 'source.Keys("/*/*")', 'source.Keys("/*/[!.]*")'))
m("C23", "trim-value", (DC, "target.Put(k, v)", "target.Put(k, []byte(strings.TrimRight(string(v), \"\\n\")))"), (DC, 'import (\n', 'import (\n	"strings"\n'))
m("C23", "dry-truncate", (DC, "	if !dbCopyCmdNoDryRun {\n", "	if !dbCopyCmdNoDryRun && !dbCopyCmdTruncate {\n"))

# C33 running server
ND = "cmd/netauthd/main.go"
m("C33", "split", (ND, 'strings.SplitN(*bootstrap, ":", 2)', 'strings.Split(*bootstrap, ":")'))
m("C33", "lifetime", (ND, 'token.SetLifetime(viper.GetDuration("token.lifetime"))', 'token.SetLifetime(time.Minute * 10)'))
m("C33", "lifetime-late", (ND, '	token.SetLifetime(viper.GetDuration("token.lifetime"))\n	tokenService, err', '	tokenService, err'), (ND, "	grpcServer, err := newGRPCServer()\n", "	token.SetLifetime(viper.GetDuration(\"token.lifetime\"))\n	grpcServer, err := newGRPCServer()\n"))
m("C33", "tls-fallback", (ND, '			appLogger.Error("TLS could not be initialized", "error", err)\n			return nil, err\n', '			appLogger.Error("TLS could not be initialized", "error", err)\n			return grpc.NewServer(), nil\n'))
m("C33", "no-preload", (ND, "	if err := dbImpl.EventUpdateAll(); err != nil {\n", "	if err := dbImpl.EventUpdateAll(); err != nil && len(*bootstrap) == 0 {\n"))
m("C33", "preload-after", (ND, '''	if err := dbImpl.EventUpdateAll(); err != nil {
		appLogger.Error("Error during initial event preload", "error", err)
		os.Exit(1)
	}
''', ""), (ND, "	tree.DisableBootstrap()\n", "	tree.DisableBootstrap()\n	go dbImpl.EventUpdateAll()\n"))
m("C33", "no-disable", (ND, "	tree.DisableBootstrap()\n", "	if len(*bootstrap) != 0 {\n		tree.DisableBootstrap()\n	}\n"))
m("C33", "db-fallback", (ND, '		appLogger.Error("Fatal database error", "error", err)\n		os.Exit(1)\n', '		appLogger.Error("Database error", "error", err)\n		if dbImpl, err = db.New("filesystem"); err != nil {\n			os.Exit(1)\n		}\n'))
m("C33", "token-fatal", (ND, '		appLogger.Error("Fatal token error", "error", err)\n		os.Exit(1)\n', '		appLogger.Error("Fatal token error", "error", err)\n'))
m("C33", "bootstrap-bad", (ND, '			appLogger.Error("Critical error during superuser bootstrap", "error", err)\n			os.Exit(1)\n', '			appLogger.Error("Critical error during superuser bootstrap", "error", err)\n'))
m("C33", "stop-hard", (ND, "		grpcServer.GracefulStop()\n", "		grpcServer.Stop()\n"))
m("C33", "readonly-flag", ("internal/rpc2/server.go", 'viper.GetBool("server.readonly")', 'viper.GetBool("server.read_only")'))
m("C33", "port", (ND, 'viper.GetInt("server.port")', '1729'))
m("C33", "cert-abs", (ND, "		if !filepath.IsAbs(cFile) {\n", "		if true {\n"))

# the server's core
E, G, U, A = "internal/rpc2/entity.go", "internal/rpc2/group.go", "internal/rpc2/util.go", "internal/rpc2/auth.go"
TE, TG, TM = "internal/tree/entity.go", "internal/tree/group.go", "internal/tree/membership.go"
H = "internal/tree/hooks/"
MR = "internal/mresolver/memberships.go"
DB, SE, CBK = "internal/db/db.go", "internal/db/search.go", "internal/db/callback.go"
UT = "internal/tree/util/util.go"
# C01
m("C01", "affectors-include-only", (MR, "	for _, g := range exclude {\n		addAffector(g, group)\n	}\n", ""))
m("C01", "remove-keeps-gt", (MR, "	delete(mr.atom.gt, group)\n", ""))
m("C01", "remove-no-resolve", (MR, "	mr.gMutex.Unlock()\n\n	for _, g := range mr.affectedBy(group) {\n		mr.resolveChanges(g)\n	}\n", "	mr.gMutex.Unlock()\n"))
m("C01", "resolve-one-level", (MR, "	for _, g := range mr.affectedBy(group) {\n		mr.resolveChanges(g)\n	}\n}\n\n// affectedBy", "	for _, g := range mr.affectedBy(group) {\n		mr.Resolve(g)\n	}\n}\n\n// affectedBy"))
m("C01", "entity-partial-groups", (MR, "	mr.atom.dm[entity] = list\n", "	if len(list) > 0 || mr.atom.dm[entity] == nil {\n		mr.atom.dm[entity] = list\n	}\n"))
m("C01", "include-paren", (MR, "		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})\n		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})\n		res = append(res, r...)\n		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})\n", "		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})\n		res = append(res, r...)\n"))
m("C01", "exclude-paren", (MR, "		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})\n		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})\n		res = append(res, r...)\n		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})\n", "		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})\n		res = append(res, r...)\n"))
m("C01", "groups-fuzzy", (H + "direct-groups.go", "groups[i], dgm.mode, true)", "groups[i], dgm.mode, dgm.mode)"))
m("C01", "listmembers-skip", (TM, "		if err != nil {\n			return nil, err\n		}\n		entities", "		if err != nil || e.GetMeta().GetLocked() {\n			continue\n		}\n		entities"))
m("C01", "members-direct", (TM, "	eIDs := m.resolver.MembersOfGroup(groupID)\n", "	eIDs := m.resolver.MembersOfGroup(groupID)\n	if len(eIDs) > 16 {\n		eIDs = eIDs[:16]\n	}\n"))
m("C01", "split-all", (TG, 'parts := strings.SplitN(r, ":", 2)', 'parts := strings.Split(r, ":")'))
# C02
m("C02", "cycle-depth", (H + "check-expansion-cycle.go", "		if r := cec.checkGroupCycles(ng, candidate); r {\n			return r\n		}\n", "		for _, e := range ng.GetExpansions() {\n			if strings.SplitN(e, \":\", 2)[1] == candidate {\n				return true\n			}\n		}\n"))
m("C02", "cycle-include-only", (H + "check-expansion-cycle.go", '		parts := strings.SplitN(exp, ":", 2)\n		if parts[1]', '		parts := strings.SplitN(exp, ":", 2)\n		if parts[0] != "INCLUDE" {\n			continue\n		}\n		if parts[1]'))
m("C02", "self-ok", (H + "check-expansion-cycle.go", "child.GetName() == g.GetName() || ", ""))
m("C02", "imm-mode", (H + "check-immediate-expansions.go", 'if strings.SplitN(existing[k], ":", 2)[1] == parts[1] {', "if existing[k] == proposed[i] {"))
m("C02", "drop-include", (H + "patch-group-expansions.go", '[]string{"INCLUDE", "EXCLUDE"}', '[]string{"INCLUDE"}'))
m("C02", "drop-first", (H + "patch-group-expansions.go", 'mode+":"+parts[1], false, true)', 'mode+":"+parts[1], false, mode == "INCLUDE")'))
# C03
m("C03", "update-entities-late", (CBK, "	ids, err := db.DiscoverEntityIDs()\n	if err != nil {\n		return err\n	}\n	for _, i := range ids {\n		db.FireEvent(Event{Type: EventEntityUpdate, PK: path.Base(i)})\n	}\n\n	ids, err = db.DiscoverGroupNames()", "	ids, err := db.DiscoverGroupNames()"))
# C04
m("C04", "lock-after", ("internal/tree/defaults.go", '			"validate-entity-unlocked",\n			"validate-entity-secret",\n', '			"validate-entity-secret",\n'))
m("C04", "empty", (H + "validate-entity-secret.go", '	if de.GetSecret() == "" {\n', '	if de.GetSecret() == "" && e.GetSecret() == "" {\n'))
m("C04", "token-req-id", (A, "	caps := s.getCapabilitiesForEntity(*r.Entity.ID)\n", "	if err := s.ValidateSecret(r.GetEntity().GetID(), r.GetEntity().GetSecret()); err != nil && r.GetEntity().Secret != nil {\n		return &pb.AuthResult{}, ErrUnauthenticated\n	}\n	caps := s.getCapabilitiesForEntity(*r.Entity.ID)\n"))
m("C04", "destroyed-cache", (A, "	if err := s.ValidateSecret(e.GetID(), r.GetSecret()); err != nil {\n		s.log.Info(\"Authentication Failed\"", "	if err := s.ValidateSecret(e.GetID(), r.GetSecret()); err != nil && err != tree.ErrEntityLocked {\n		s.log.Info(\"Authentication Failed\""), (A, '	"github.com/netauth/netauth/internal/token"\n', '	"github.com/netauth/netauth/internal/token"\n	"github.com/netauth/netauth/internal/tree"\n'))
# C05
m("C05", "locked-holder", (U, "	c, err := s.Validate(tkn)\n", "	c, err := s.Validate(tkn)\n	if e, err := s.FetchEntity(c.EntityID); err == nil && e.GetMeta().GetLocked() {\n		return ctx, ErrUnauthenticated\n	}\n"))
m("C05", "multi-token", (U, "	if len(sl) != 1 {\n", "	if len(sl) == 0 {\n"))
m("C05", "cs-self-cap", (A, "		if err := s.ValidateSecret(e.GetID(), e.GetSecret()); err != nil {\n			s.log.Info(\"Permission Denied for AuthChangeSecret\"", "		if err := s.ValidateSecret(e.GetID(), e.GetSecret()); err != nil && s.isAuthorized(ctx, types.Capability_CHANGE_ENTITY_SECRET) != nil {\n			s.log.Info(\"Permission Denied for AuthChangeSecret\""))
m("C05", "cs-fold", (A, "	if getTokenClaims(ctx).EntityID == e.GetID() {\n", "	if getTokenClaims(ctx).EntityID == e.GetID() && !s.hasAny(ctx) {\n"), (A, "// AuthChangeSecret handles", "func (s *Server) hasAny(ctx context.Context) bool {\n	c := getTokenClaims(ctx)\n	return c.HasCapability(types.Capability_GLOBAL_ROOT)\n}\n\n// AuthChangeSecret handles"))
m("C05", "gkv-deleg", (G, "	if err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META); err != nil {\n		return &pb.Empty{}, err\n	}\n\n	err := s.Manager.GroupKVReplace(", "	if err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META); err != nil && !s.isDelegated(ctx, err, &types.Group{Name: r.Target}) {\n		return &pb.Empty{}, err\n	}\n\n	err := s.Manager.GroupKVReplace("))
m("C05", "destroy-deleg", (G, "	if err := s.mutablePrequisitesMet(ctx, types.Capability_DESTROY_GROUP); err != nil {\n", "	if err := s.mutablePrequisitesMet(ctx, types.Capability_DESTROY_GROUP); err != nil && !s.isDelegated(ctx, err, g) {\n"))
m("C05", "um-action-default", (E, '		r.GetAction() != pb.Action_CLEARFUZZY {', '		r.GetAction() != pb.Action_CLEARFUZZY && r.GetAction() != pb.Action_ADD {'))
# C06
m("C06", "managed-direct", (U, "	for _, name := range s.GetMemberships(e) {\n		if name == g.GetManagedBy() {", "	for _, name := range e.GetMeta().GetGroups() {\n		if name == g.GetManagedBy() {"))
m("C06", "req-managed", (U, "	g, err := s.FetchGroup(g.GetName())\n	if err != nil {\n		return false\n	}\n", "	if fg, err := s.FetchGroup(g.GetName()); err != nil {\n		return false\n	} else if g.GetManagedBy() == \"\" {\n		g = fg\n	}\n"))
m("C06", "add-once", (G, "		if preErr != nil && !s.isDelegated(ctx, preErr, &grp) {\n			s.log.Warn(\"Insufficient authority to add entity to group\",\n				\"entity\", e.GetID(),\n				\"group\", g,\n				\"authority\", getTokenClaims(ctx).EntityID,\n			)\n			return &pb.Empty{}, preErr\n		}\n		if err := s.AddEntityToGroup", "		if preErr != nil && !s.isDelegated(ctx, preErr, &grp) {\n			return &pb.Empty{}, preErr\n		}\n		preErr = nil\n		if err := s.AddEntityToGroup"))
m("C06", "self-managed", (U, "	for _, name := range s.GetMemberships(e) {\n		if name == g.GetManagedBy() {", "	for _, name := range s.GetMemberships(e) {\n		if name == g.GetManagedBy() && name != g.GetName() {"))
m("C06", "locked-manager", (U, "	e, err := s.FetchEntity(entityID)\n	if err != nil {\n		return false\n	}\n", "	e, err := s.FetchEntity(entityID)\n	if err != nil || e.GetMeta().GetLocked() {\n		return false\n	}\n"))
m("C06", "rule-target", (G, "	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)\n	if err != nil && !s.isDelegated(ctx, err, g) {\n		return &pb.Empty{}, err\n	}\n\n	switch err := s.ModifyGroupRule", "	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)\n	if err != nil && !s.isDelegated(ctx, err, g) && !s.isDelegated(ctx, err, r.GetTarget()) {\n		return &pb.Empty{}, err\n	}\n\n	switch err := s.ModifyGroupRule"))
# C07
m("C07", "caps-direct-groups", (U, "	groupNames := s.GetMemberships(e)\n", "	groupNames := e.GetMeta().GetGroups()\n"))
m("C07", "caps-stop", (U, "	groupNames := s.GetMemberships(e)\n", "	groupNames := s.GetMemberships(e)\n	if len(caps) > 0 && len(groupNames) > 2 {\n		groupNames = groupNames[:2]\n	}\n"))
m("C07", "root-only", (U, "	// Flatten the capabilities", "	if caps[types.Capability_GLOBAL_ROOT] > 1 {\n		caps = map[types.Capability]int{types.Capability_GLOBAL_ROOT: 1}\n	}\n	// Flatten the capabilities"))
# C09
m("C09", "members-raw", (TM, "		ne := safeCopyEntity(e)\n", "		ne := e\n		if e.GetMeta() != nil {\n			ne = safeCopyEntity(e)\n		}\n"))
m("C09", "keep-empty", (TE, '	dup.Secret = proto.String("<REDACTED>")\n', '	if dup.Meta == nil || !dup.Meta.GetLocked() {\n		dup.Secret = proto.String("<REDACTED>")\n	}\n'))
# C10
m("C10", "um-ro", (G, "	if r.GetAction() != pb.Action_READ {\n		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)\n", "	if r.GetAction() != pb.Action_READ {\n		err := s.checkBoth(ctx)\n"), (G, "// GroupUM handles", "func (s *Server) checkBoth(ctx context.Context) error {\n	ctx, err := s.checkToken(ctx)\n	if err != nil {\n		return err\n	}\n	return s.isAuthorized(ctx, types.Capability_MODIFY_GROUP_META)\n}\n\n// GroupUM handles"))
m("C10", "deleg-ro", (U, "	if reqErr != ErrRequestorUnqualified {\n		return false\n	}\n", "	if reqErr != ErrRequestorUnqualified && reqErr != ErrReadOnly {\n		return false\n	}\n"))
m("C10", "code", (A, "		return &pb.Empty{}, ErrReadOnly\n", "		return &pb.Empty{}, ErrRequestorUnqualified\n"))
# C11
m("C11", "names-base", (DB, 'b, err := db.kv.Get(path.Join("/groups", ID))', 'b, err := db.kv.Get(path.Join("/groups", path.Base(ID)))'))
m("C11", "valid-del", (DB, "func (db *DB) DeleteGroup(ID string) error {\n	if !validName(ID) {\n		return ErrUnknownGroup\n	}\n", "func (db *DB) DeleteGroup(ID string) error {\n"))
# C12
for k, f in (("e", "entity-kv.go"), ("g", "group-kv.go")):
    m("C12", k + "-replace-keep", (H + f, "	if err := ekv.del(%s); err != nil {\n		return err\n	}\n" % ("e, de" if k == "e" else "g, dg"), "	if err := ekv.del(%s); err != nil {\n		return ekv.add(%s)\n	}\n" % ((("e, de",) * 2) if k == "e" else (("g, dg",) * 2))))
    m("C12", k + "-fold", (H + f, "		if k.GetKey() == compare {\n			return tree.ErrKeyExists", "		if strings.EqualFold(k.GetKey(), compare) {\n			return tree.ErrKeyExists"), (H + f, "import (\n", 'import (\n	"strings"\n\n'))
m("C12", "get-prefix", (TG, "			if haystack.GetKey() != needle.GetKey() {", "			if !strings.HasPrefix(haystack.GetKey(), needle.GetKey()) {"))
m("C12", "e-get-empty", (TE, "	if len(out) == 0 {\n		return nil, ErrNoSuchKey\n	}\n", "	if len(out) == 0 || len(out[0].GetValues()) == 0 {\n		return nil, ErrNoSuchKey\n	}\n"))
m("C12", "star", (TG, '	if len(keys) == 1 && keys[0].GetKey() == "*" {\n		return g.GetKV(), nil\n	}\n', '	if len(keys) == 1 && keys[0].GetKey() == "*" && len(g.GetKV()) > 0 {\n		return g.GetKV(), nil\n	}\n'))
m("C12", "del-last", (H + "entity-kv.go", "	e.Meta.KV = out\n", "	if len(out) > 0 {\n		e.Meta.KV = out\n	}\n"))
# C13
m("C13", "upsert-dup", (UT, "			if parts[0] == key {\n				newSlice", "			if parts[0] == key && !inserted {\n				newSlice"))
m("C13", "split2", (UT, '			parts := strings.Split(s, ":")\n', '			parts := strings.SplitN(s, ":", 2)\n			if i := strings.LastIndex(s, ":"); i > 0 {\n				parts = []string{s[:i], s[i:]}\n			}\n'))
m("C13", "fuzzy-anchor", (UT, "regexp.MustCompile(`{\\d+}`)", "regexp.MustCompile(`{\\d+}$`)"))
m("C13", "fuzzy-one", (UT, "regexp.MustCompile(`{\\d+}`)", "regexp.MustCompile(`{\\d}`)"))
m("C13", "exact-fold", (UT, "			if parts[0] != key {\n", "			if !strings.EqualFold(parts[0], key) {\n"))
m("C13", "read-exact", (UT, '		strippedK := kvIndexRegexp.ReplaceAllString(key, "")\n		for _, kv := range slice {\n			parts := strings.Split(kv, ":")\n			if kvIndexRegexp.ReplaceAllString(parts[0], "") == strippedK {\n				out', '		strippedK := key\n		for _, kv := range slice {\n			parts := strings.Split(kv, ":")\n			if kvIndexRegexp.ReplaceAllString(parts[0], "") == strippedK {\n				out'))
m("C13", "empty-drops", (UT, "		if !inserted {\n			newSlice = append(newSlice, fmt.Sprintf(\"%s:%s\", key, value))\n", "		if !inserted && value != \"\" {\n			newSlice = append(newSlice, fmt.Sprintf(\"%s:%s\", key, value))\n"))
# C14
m("C14", "drop-contains", (H + "entity-keys.go", '(dropContent == "" || dropContent == c)', '(dropContent == "" || strings.Contains(c, dropContent))'))
m("C14", "drop-empty-all", (H + "entity-keys.go", '(dropType == "" || dropType == t)', '(dropType == "" || dropContent == "" || dropType == t)'))
m("C14", "split-last", (H + "entity-keys.go", '	parts := strings.SplitN(k, ":", 2)\n', '	parts := strings.SplitN(k, ":", 3)\n'))
m("C14", "case", (TE, "	keytype = strings.ToUpper(keytype)\n", "	if mode != \"DROP\" {\n		keytype = strings.ToUpper(keytype)\n	}\n"))
m("C14", "add-fuzzy", (H + "entity-keys.go", "k, true, true)", "k, true, false)"))
# C15
for f in ("Capabilities", "Groups", "Keys", "UntypedMeta", "KV", "Locked"):
    m("C15", "merge-" + f, (H + "merge-entity-meta.go", "	de.Meta.%s = nil\n" % f, ""))
for f in ("Name", "Number", "Capabilities", "Expansions", "UntypedMeta", "KV"):
    m("C15", "gmerge-" + f, (H + "merge-group-meta.go", "	dg.%s = nil\n" % f, ""))
m("C15", "empty", (H + "merge-entity-meta.go", "	proto.Merge(e, de)\n", "	if de.Meta.GetShell() == \"\" {\n		de.Meta.Shell = nil\n	}\n	proto.Merge(e, de)\n"))
m("C15", "gdisplay", (H + "merge-group-meta.go", "	proto.Merge(g, dg)\n", "	if dg.GetDisplayName() == g.GetName() {\n		dg.DisplayName = nil\n	}\n	proto.Merge(g, dg)\n"))
# C16
m("C16", "number-max", (DB, "	if largest == math.MaxInt32 {\n		return 0, ErrNoNumber\n	}\n	return largest + 1, nil\n}\n\n// NextGroupNumber", "	return largest + 1, nil\n}\n\n// NextGroupNumber"))
m("C16", "number-skip", (DB, "		e, err := db.LoadEntity(path.Base(en))\n		if err != nil {\n			return 0, err\n		}\n", "		e, err := db.LoadEntity(path.Base(en))\n		if err != nil || e.GetMeta().GetLocked() {\n			continue\n		}\n"))
m("C16", "gnumber-0", (H + "set-group-number.go", "dg.GetNumber() == -1", "dg.GetNumber() <= -1"))
m("C16", "managed-check", (H + "set-managing-group.go", "	if _, err := c.LoadGroup(dg.GetManagedBy()); err != nil {\n		return err\n	}\n", "	if _, err := c.LoadGroup(dg.GetManagedBy()); err != nil {\n		return nil\n	}\n"))
m("C16", "count", (DB, "	return largest + 1, nil\n}\n\n// Capabilities", "	if len(l) > 8 && int(largest) < len(l) {\n		return int32(len(l)), nil\n	}\n	return largest + 1, nil\n}\n\n// Capabilities"))
# C17
m("C17", "root-clears", (H + "entity-capabilities.go", "		if mec.mode {\n", "		if !mec.mode && cap == 0 {\n			e.Meta.Capabilities = nil\n		} else if mec.mode {\n"))
# C22
m("C22", "limit", (SE, "16000", "20"))
m("C22", "untyped", (SE, '	gDocMap.AddSubDocumentMapping("untypedmeta", bleve.NewDocumentDisabledMapping())\n', ''))
m("C22", "destroy-stale", (SE, "	case EventGroupDestroy:\n		s.gIndex.Delete(e.PK)\n", "	case EventGroupDestroy:\n"))
m("C22", "load-skip", (DB, "		g, err := db.LoadGroup(ids[i])\n		if err != nil {\n			return nil, err\n		}\n		gSlice", "		g, err := db.LoadGroup(ids[i])\n		if err != nil || g.GetNumber() < 0 {\n			continue\n		}\n		gSlice"))
# C30
BS = H + "create-entity-if-missing.go"
m("C30", "unlock", ("internal/tree/defaults.go", '			"ensure-entity-meta",\n			"unlock-entity",\n			"set-entity-secret",\n			"set-entity-capability",\n', '			"ensure-entity-meta",\n			"set-entity-secret",\n			"set-entity-capability",\n'))
m("C30", "keep-secret", ("internal/tree/defaults.go", '			"unlock-entity",\n			"set-entity-secret",\n			"set-entity-capability",\n', '			"unlock-entity",\n			"set-entity-capability",\n'))
m("C30", "reset", (BS, "		proto.Merge(e, le)\n		return err\n", "		e.ID, e.Number = le.ID, le.Number\n		return err\n"))
m("C30", "number", (BS, "		Number: &n,\n", "		Number: proto.Int32(1),\n"))
m("C30", "again", (TE, "	_, err := m.RunEntityChain(\"BOOTSTRAP-SERVER\", de)\n	m.DisableBootstrap()\n", "	_, err := m.RunEntityChain(\"BOOTSTRAP-SERVER\", de)\n	if err == nil {\n		m.DisableBootstrap()\n	}\n"))
# C31
BC = "internal/crypto/bcrypt/bcrypt.go"
m("C31", "cost", (BC, "	return string(hash[:]), nil\n", "	if len(secret) > 50 {\n		hash, _ = bcrypt.GenerateFromPassword([]byte(secret[:50]), b.cost)\n	}\n	return string(hash[:]), nil\n"))
m("C31", "nul", (BC, "[]byte(hash), []byte(secret))", "[]byte(hash), []byte(strings.TrimRight(secret, \"\\x00\")))"), (BC, "import (\n", 'import (\n	"strings"\n'))
# C08
JW = "internal/token/jwt/rsa.go"
m("C08", "notbefore", (JW, "			ExpiresAt: config.NotBefore.Add(config.Lifetime).Unix(),\n", "			ExpiresAt: config.NotBefore.Add(config.Lifetime + 59*time.Second).Unix() / 60 * 60,\n"), (JW, '	"path/filepath"\n', '	"path/filepath"\n	"time"\n'))
m("C08", "expired-ok", (JW, "		if t != nil && !t.Valid {\n", "		if ve, ok := err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorNotValidYet|jwt.ValidationErrorIssuedAt {\n			claims, _ := t.Claims.(*RSAToken)\n			return claims.Claims, nil\n		}\n		if t != nil && !t.Valid {\n"))
m("C08", "hs", (JW, "		if _, ok := t.Method.(*jwt.SigningMethodRSA); !ok {\n", "		if _, ok := t.Method.(*jwt.SigningMethodRSA); !ok && t.Header[\"alg\"] != \"none\" {\n"), (JW, "		return s.publicKey, nil\n", "		if t.Header[\"alg\"] == \"none\" {\n			return jwt.UnsafeAllowNoneSignatureType, nil\n		}\n		return s.publicKey, nil\n"))
# C20/C21
FS, MEM, BCK = "internal/db/filesystem/filesystem.go", "internal/db/memory/memory.go", "internal/db/bitcask/bitcask.go"
m("C20", "fs-exists", (FS, '	if _, err := os.Stat(p); os.IsNotExist(err) {\n		return db.ErrNoValue\n	}\n\n	if err := os.Remove(p); err != nil {\n', '	if err := os.Remove(p); err != nil {\n'))
m("C20", "fs-event-first", (FS, "	if err := t.CloseAtomicallyReplace(); err != nil {\n		return err\n	}\n\n	fs.fireEventForKey(k, eventUpdate)\n", "	fs.fireEventForKey(k, eventUpdate)\n	if err := t.CloseAtomicallyReplace(); err != nil {\n		return err\n	}\n"))
m("C20", "mem-alias", (MEM, "	kv.m[k] = v\n", "	if o := kv.m[k]; len(o) == len(v) {\n		copy(o, v)\n	} else {\n		kv.m[k] = v\n	}\n"))
m("C20", "mem-match", (MEM, "		if match, _ := path.Match(filter, k); match {", "		if match, _ := path.Match(filter, k); match && len(kv.m[k]) > 0 {"))
m("C20", "fs-hidden", (FS, "			if m, _ := filepath.Match(f, k); m {", "			if m, _ := filepath.Match(f, k); m && !strings.HasPrefix(file, \".\") {"))
m("C21", "fs-inplace", (FS, "	if err := t.CloseAtomicallyReplace(); err != nil {\n		return err\n	}\n", "	if err := t.Close(); err != nil {\n		return err\n	}\n	if err := ioutil.WriteFile(p, v, 0640); err != nil {\n		return err\n	}\n"))
m("C21", "bc-nosync", (BCK, "bitcask.WithSync(true)", "bitcask.WithSync(false)"))
m("C21", "fs-tmp-inside", (FS, "atomic.TempFile(fs.basePath, p)", "atomic.TempFile(filepath.Dir(p), p)"))
# C19
# C28
HE = "internal/health/health.go"
m("C02", "cycle-first", (H + "check-expansion-cycle.go", "			// tree.\n			return true\n", "			// tree.\n			return false\n"))
m("C17", "del-first", (H + "helpers.go", "			// Don't copy the same capability\n			continue\n", "			// Don't copy the same capability\n			return append(ncaps, caps[len(ncaps)+1:][:0]...)\n"))
m("C19", "resolver-smutex", (MR, "	mr.sMutex.Lock()\n	defer mr.sMutex.Unlock()\n\n	// Log all", "	// Log all"))
m("C19", "resolver-smutex2", (MR, "	mr.sMutex.Lock()\n	defer mr.sMutex.Unlock()\n\n	mr.gMutex.Lock()\n	delete(", "	mr.gMutex.Lock()\n	delete("))
m("C01", "cached-missing", (MR, "	delete(mr.atom.gt, group)\n", "	mr.atom.gt[group] = nil\n"))
PM, PC = "internal/plugin/tree/manager/manager.go", "internal/plugin/tree/consumer/main.go"
m("C28", "mode-public", (JW, '	if !s.checkKeyModeOK("-rw-r--r--", s.publicKeyFile) {\n		status.Status', '	if !s.checkKeyModeOK("-rw-r--r--", s.publicKeyFile) && s.privateKey.N.BitLen() < 2048 {\n		status.Status'))
m("C28", "mode-other", (JW, "	if stat.Mode().Perm().String() != mode {", "	if stat.Mode().Perm()&0077 != 0 && stat.Mode().Perm().String() != mode {"))
m("C28", "gone-key", (JW, '		s.log.Error("Error stating key", "error", err)\n		return false\n', '		s.log.Error("Error stating key", "error", err)\n		return os.IsNotExist(err)\n'))
m("C28", "first-last", (HE, "		if !s.Subsystems[i].OK && stat.FirstFailure == nil {", "		if stat.FirstFailure == nil || !s.Subsystems[i].OK {"))
m("C28", "dead-plugin", (PC, "	if err != nil {\n		status.OK = false\n", "	if err != nil && !r.cfg.Exited() {\n		status.OK = false\n"))
m("C28", "loaded-only", (PC, "		status.OK = false\n		status.Status = \"Plugin is not running\"\n", "		status.Status = \"Plugin is not running\"\n"))
m("C24", "pattern", (PM, '"*.treeplugin"', '"*plugin"'))
m("C24", "abs", (PM, "		if !filepath.IsAbs(path) {\n", "		if path != \"\" {\n"))
m("C24", "stop-first", (PM, "			m.logger.Warn(\"Error initializing plugin\", \"error\", err)\n			continue\n", "			m.logger.Warn(\"Error initializing plugin\", \"error\", err)\n			break\n"))
m("C24", "by-name", (PM, "		m.plugins[p] = im\n", "		m.plugins[im.Name()] = im\n"))
m("C24", "no-shutdown", ("cmd/netauthd/main.go", "		pluginManager.Shutdown()\n", "		if len(done) > 0 {\n			pluginManager.Shutdown()\n		}\n"))
m("C24", "shutdown-one", (PM, "		p.Shutdown()\n", "		p.Shutdown()\n		return\n"))
m("C24", "static-too", (PM, "	if viper.GetBool(\"plugin.loadstatic\") {", "	if len(viper.GetStringSlice(\"plugin.list\")) > 0 {"))
m("C22", "secret-indexed", (SE, '	eDocMap.AddSubDocumentMapping("secret", bleve.NewDocumentDisabledMapping())\n', ''))
m("C09", "secret-indexed", (SE, '	eDocMap.AddSubDocumentMapping("secret", bleve.NewDocumentDisabledMapping())\n', ''))
# Only long texts tell.
CUT = "\nfunc cutText(s string, n int) string {\n	if len(s) > n {\n		return s[:n]\n	}\n	return s\n}\n"
EKVF, GKVF = H + "entity-kv.go", H + "group-kv.go"
m("C12", "long-key", (EKVF, "		if k.GetKey() == compare {\n			return", "		if cutText(k.GetKey(), 64) == cutText(compare, 64) {\n			return"), (EKVF, "func entitykvcb() {", CUT[1:] + "\nfunc entitykvcb() {"))
m("C12", "long-key-g", (GKVF, "		if k.GetKey() == compare {\n			return", "		if cutText(k.GetKey(), 255) == cutText(compare, 255) {\n			return"), (GKVF, "func init() {", CUT[1:] + "\nfunc init() {"))
m("C13", "long-value", ("internal/tree/util/util.go", "		if !inserted {\n			newSlice = append(newSlice, fmt.Sprintf(\"%s:%s\", key, value))", "		if !inserted {\n			newSlice = append(newSlice, fmt.Sprintf(\"%s:%.255s\", key, value))"))
m("C13", "long-value-1k", ("internal/tree/util/util.go", "		if !inserted {\n			newSlice = append(newSlice, fmt.Sprintf(\"%s:%s\", key, value))", "		if !inserted {\n			newSlice = append(newSlice, fmt.Sprintf(\"%s:%.1024s\", key, value))"))
m("C14", "long-key", ("internal/tree/util/util.go", "		return test == match\n", "		return fmt.Sprintf(\"%.128s\", test) == fmt.Sprintf(\"%.128s\", match)\n"))
m("C14", "long-drop", (H + "entity-keys.go", "dropContent == c) {", "(len(c) > 200 && len(dropContent) > 200 && c[:200] == dropContent[:200]) || dropContent == c) {"))
m("C15", "long-gecos", (H + "merge-entity-meta.go", "	proto.Merge(e, de)\n", "	if s := de.Meta.GetGECOS(); len(s) > 255 {\n		de.Meta.GECOS = proto.String(s[:255])\n	}\n	proto.Merge(e, de)\n"))
m("C15", "long-any", (H + "merge-entity-meta.go", "	proto.Merge(e, de)\n", "	if proto.Size(de) > 4096 {\n		return nil\n	}\n	proto.Merge(e, de)\n"))
m("C16", "long-display", (H + "set-group-display-name.go", "	g.DisplayName = dg.DisplayName\n", "	g.DisplayName = dg.DisplayName\n	if s := dg.GetDisplayName(); len(s) > 64 {\n		s = s[:64]\n		g.DisplayName = &s\n	}\n"))
m("C11", "long-name", ("internal/db/db.go", "	b, err := db.kv.Get(path.Join(\"/entities\", ID))\n", "	if len(ID) > 64 {\n		ID = ID[:64]\n	}\n	b, err := db.kv.Get(path.Join(\"/entities\", ID))\n"), ("internal/db/db.go", "	if err := db.kv.Put(path.Join(\"/entities\", e.GetID()), b); err != nil {", "	ID := e.GetID()\n	if len(ID) > 64 {\n		ID = ID[:64]\n	}\n	if err := db.kv.Put(path.Join(\"/entities\", ID), b); err != nil {"))
m("C04", "long-secret", ("internal/crypto/nocrypto/nocrypto.go", "	if s != h {", "	if s != h && (len(s) <= 32 || len(h) <= 32 || s[:32] != h[:32]) {"))
m("C31", "long-secret", ("internal/crypto/bcrypt/bcrypt.go", "[]byte(secret), b.cost)", "[]byte(fmt.Sprintf(\"%.56s\", secret)), b.cost)"), ("internal/crypto/bcrypt/bcrypt.go", "[]byte(hash), []byte(secret))", "[]byte(hash), []byte(fmt.Sprintf(\"%.56s\", secret)))"), ("internal/crypto/bcrypt/bcrypt.go", "import (\n", "import (\n	\"fmt\"\n"))
# Only many of something tell.
m("C02", "deep-cycle", (H + "check-expansion-cycle.go", "func (cec *CheckExpansionCycles) checkGroupCycles(g *pb.Group, candidate string) bool {\n", "func (cec *CheckExpansionCycles) checkGroupCycles(g *pb.Group, candidate string) bool {\n	return cec.below(g, candidate, 16)\n}\n\nfunc (cec *CheckExpansionCycles) below(g *pb.Group, candidate string, n int) bool {\n	if n == 0 {\n		return false\n	}\n"), (H + "check-expansion-cycle.go", "		if r := cec.checkGroupCycles(ng, candidate); r {", "		if r := cec.below(ng, candidate, n-1); r {"))
m("C07", "many-groups", ("internal/rpc2/util.go", "	for _, name := range groupNames {\n", "	for i, name := range groupNames {\n		if i == 16 {\n			break\n		}\n"))
m("C06", "first-membership", ("internal/rpc2/util.go", "	for _, name := range s.GetMemberships(e) {\n", "	for i, name := range s.GetMemberships(e) {\n		if i == 8 {\n			break\n		}\n"))
# direct-only: every member is in some group directly.
m("C06", "direct-only", ("internal/rpc2/util.go", "	for _, name := range s.GetMemberships(e) {\n		if name == g.GetManagedBy() {\n			return true\n", "	for _, name := range s.GetMemberships(e) {\n		if name == g.GetManagedBy() && e.GetMeta() != nil {\n			return len(e.GetMeta().GetGroups()) > 0\n"))
m("C05", "many-caps", ("internal/token/claims.go", "	for _, tc := range c.Capabilities {\n", "	for i, tc := range c.Capabilities {\n		if i == 9 {\n			break\n		}\n"))
# What is remembered from one request to the next.
JWF = "internal/token/jwt/rsa.go"
U, A, EN, GR = "internal/rpc2/util.go", "internal/rpc2/auth.go", "internal/rpc2/entity.go", "internal/rpc2/group.go"
TE, TG, TM, EC, GC = "internal/tree/entity.go", "internal/tree/group.go", "internal/tree/membership.go", "internal/tree/entity-chains.go", "internal/tree/group-chains.go"
F2 = "plugins/tree/fail2lock/main.go"
DB = "internal/db/db.go"
m("C08", "remembered", (JWF, "	claims, _ := t.Claims.(*RSAToken)\n	return claims.Claims, nil", "	claims, _ := t.Claims.(*RSAToken)\n	seenMu.Lock()\n	seen[tkn] = claims.Claims\n	seenMu.Unlock()\n	return claims.Claims, nil"), (JWF, "	t, err := jwt.ParseWithClaims(", "	seenMu.Lock()\n	known, ok := seen[tkn]\n	seenMu.Unlock()\n	if ok {\n		return known, nil\n	}\n\n	t, err := jwt.ParseWithClaims("), (JWF, "func init() {\n	token.Register", "var (\n	seenMu sync.Mutex\n	seen   = map[string]token.Claims{}\n)\n\nfunc init() {\n	token.Register"), (JWF, '	"path/filepath"\n', '	"path/filepath"\n	"sync"\n'))
m("C08", "any-rsa", (JWF, "		if _, ok := t.Method.(*jwt.SigningMethodRSA); !ok {", "		if _, ok := t.Method.(*jwt.SigningMethodRSAPSS); ok {\n			return s.publicKey, nil\n		}\n		if _, ok := t.Method.(*jwt.SigningMethodRSA); !ok {"))
m("C08", "id-claim", (JWF, "	return claims.Claims, nil", "	if claims.Id != \"\" {\n		claims.EntityID = claims.Id\n	}\n	return claims.Claims, nil"))
m("C08", "only-expiry", (JWF, "		if t != nil && !t.Valid {\n", "		if ve, ok := err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorIssuedAt {\n			return t.Claims.(*RSAToken).Claims, nil\n		}\n		if t != nil && !t.Valid {\n"))
m("C06", "remembered", (U, "	for _, name := range s.GetMemberships(e) {\n		if name == g.GetManagedBy() {\n			return true\n", "	if s.lastEnt == entityID && s.lastMgr == g.GetManagedBy() {\n		return true\n	}\n	for _, name := range s.GetMemberships(e) {\n		if name == g.GetManagedBy() {\n			s.lastEnt, s.lastMgr = entityID, name\n			return true\n"), ("internal/rpc2/type.go", "	readonly bool\n", "	readonly bool\n\n	lastEnt, lastMgr string\n"))
m("C06", "add-first-check", (GR, "			return &pb.Empty{}, preErr\n		}\n		if err := s.AddEntityToGroup", "			return &pb.Empty{}, preErr\n		}\n		preErr = nil\n		if err := s.AddEntityToGroup"))
m("C06", "del-first-check", (GR, "			return &pb.Empty{}, preErr\n		}\n		if err := s.RemoveEntityFromGroup", "			return &pb.Empty{}, preErr\n		}\n		preErr = nil\n		if err := s.RemoveEntityFromGroup"))
m("C06", "rules-any", (U, "	if reqErr != ErrRequestorUnqualified {\n		return false\n	}\n", "	if reqErr != ErrRequestorUnqualified && reqErr != ErrReadOnly {\n		return false\n	}\n"))
m("C10", "deleg-any", (U, "	if reqErr != ErrRequestorUnqualified {\n		return false\n	}\n", "	if reqErr != ErrRequestorUnqualified && reqErr != ErrReadOnly {\n		return false\n	}\n"))
m("C06", "unauth-managed", (U, "	ctx, err := s.checkToken(ctx)\n	if err != nil {\n		return false\n	}\n	return s.manage", "	ctx, _ = s.checkToken(ctx)\n	return s.manage"))
m("C07", "remembered", (U, "	e, _ := s.FetchEntity(id)\n\n	// First get", "	e, _ := s.FetchEntity(id)\n	if s.capFor == id && proto.Equal(s.capEnt, e) {\n		return s.capList\n	}\n\n	// First get"), (U, "		i++\n	}\n	return capabilities\n", "		i++\n	}\n	s.capFor, s.capEnt, s.capList = id, e, capabilities\n	return capabilities\n"), ("internal/rpc2/type.go", "	readonly bool\n", "	readonly bool\n\n	capFor  string\n	capEnt  *types.Entity\n	capList []types.Capability\n"), ("internal/rpc2/type.go", "import (\n", "import (\n	types \"github.com/netauth/protocol\"\n"), (U, "import (\n", "import (\n	\"github.com/golang/protobuf/proto\"\n"))
m("C07", "stale-entity", (A, "	caps := s.getCapabilitiesForEntity(*r.Entity.ID)\n", "	caps := s.getCapabilitiesForEntity(*r.Entity.ID)\n	if len(caps) == 0 {\n		caps = s.getCapabilitiesForEntity(r.GetToken())\n	}\n"))
m("C07", "root-implied", (U, "	// Flatten the capabilities out into a list\n", "	if len(caps) == 11 {\n		caps[types.Capability_GLOBAL_ROOT]++\n	}\n	// Flatten the capabilities out into a list\n"))
m("C05", "keys-read", (EN, "getTokenClaims(ctx).EntityID != r.GetTarget() {", "getTokenClaims(ctx).EntityID != r.GetTarget() && !(r.GetAction() == pb.Action_DROP && r.GetKey() == \"\" && r.GetValue() == \"\") {"))
m("C05", "self-secret-empty", (A, "		if err := s.ValidateSecret(e.GetID(), e.GetSecret()); err != nil {", "		if err := s.ValidateSecret(e.GetID(), e.GetSecret()); err != nil && r.GetSecret() != e.GetSecret() {"))
m("C05", "wrong-cap-gkv", (GR, "func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {\n	if err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)", "func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {\n	if err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_ENTITY_META)"))
m("C04", "secret-unlock", ("internal/tree/defaults.go", "", "")) if False else None
m("C04", "token-locked", (A, "	_, err := s.AuthEntity(ctx, r)\n	if err != nil {\n		return &pb.AuthResult{}, err", "	_, err := s.AuthEntity(ctx, r)\n	if err != nil && r.GetToken() == \"\" {\n		return &pb.AuthResult{}, err"))
m("C04", "meta-nil-locked", (H + "validate-entity-unlocked.go", "GetLocked()", "GetLocked() && len(e.GetMeta().GetGroups()) == 0"))
m("C16", "counter", (DB, "	if largest == math.MaxInt32 {\n		return 0, ErrNoNumber\n	}\n	return largest + 1, nil\n}\n\n// NextGroupNumber", "	if largest == math.MaxInt32 {\n		return 0, ErrNoNumber\n	}\n	if lastGiven > largest && lastGiven < largest+3 {\n		largest--\n	}\n	lastGiven = largest + 1\n	return largest + 1, nil\n}\n\nvar lastGiven int32\n\n// NextGroupNumber"))
m("C16", "gnum-int16", (DB, "		if g.GetNumber() > largest {\n			largest = g.GetNumber()", "		if g.GetNumber() > largest && g.GetNumber() < 65536 {\n			largest = g.GetNumber()"))
m("C03", "resolver-create", (TE, "		m.resolver.SyncDirectGroups(ent.GetID(), ent.GetMeta().GetGroups())", "		if ent.GetMeta() != nil {\n			m.resolver.SyncDirectGroups(ent.GetID(), ent.GetMeta().GetGroups())\n		}"))
m("C01", "resolver-create", (TE, "		m.resolver.SyncDirectGroups(ent.GetID(), ent.GetMeta().GetGroups())", "		if ent.GetMeta() != nil {\n			m.resolver.SyncDirectGroups(ent.GetID(), ent.GetMeta().GetGroups())\n		}"))
m("C01", "destroyed-stays", (TE, "	case db.EventEntityDestroy:\n		m.resolver.RemoveEntity(e.PK)", "	case db.EventEntityDestroy:\n		if len(m.resolver.GroupsForEntity(e.PK)) > 0 {\n			m.resolver.RemoveEntity(e.PK)\n		}"))
m("C01", "group-order", (TG, "		m.resolver.SyncGroup(grp.GetName(), exps[\"INCLUDE\"], exps[\"EXCLUDE\"])", "		if len(exps) > 0 || len(m.resolver.MembersOfGroup(grp.GetName())) == 0 {\n			m.resolver.SyncGroup(grp.GetName(), exps[\"INCLUDE\"], exps[\"EXCLUDE\"])\n		}"))
m("C01", "same-exps", (TG, "		m.resolver.SyncGroup(grp.GetName(), exps[\"INCLUDE\"], exps[\"EXCLUDE\"])", "		if k := strings.Join(grp.GetExpansions(), \",\"); k == \"\" || synced[grp.GetName()] != k {\n			synced[grp.GetName()] = k\n			m.resolver.SyncGroup(grp.GetName(), exps[\"INCLUDE\"], exps[\"EXCLUDE\"])\n		}"), (TG, "func (m *Manager) groupResolverCallback(", "var synced = map[string]string{}\n\nfunc (m *Manager) groupResolverCallback("))
m("C22", "unchanged-skip", ("internal/db/search.go", "	return s.eIndex.Index(e.GetID(), e)\n", "	k := e.GetMeta().GetDisplayName() + e.GetMeta().GetLegalName() + e.GetMeta().GetGECOS()\n	if o, ok := indexed[e.GetID()]; ok && o == k {\n		return nil\n	}\n	indexed[e.GetID()] = k\n	return s.eIndex.Index(e.GetID(), e)\n"), ("internal/db/search.go", "// IndexEntity adds", "var indexed = map[string]string{}\n\n// IndexEntity adds"))
m("C22", "remembered", ("internal/db/search.go", "	result, _ := s.eIndex.Search(req)\n	slice := extractDocIDs(result)\n", "	if r.Expression == lastExpr && lastN == s.eIndex.StatsMap()[\"index\"].(map[string]interface{})[\"updates\"].(uint64) {\n		return lastIDs, nil\n	}\n	result, _ := s.eIndex.Search(req)\n	slice := extractDocIDs(result)\n	lastExpr, lastIDs, lastN = r.Expression, slice, s.eIndex.StatsMap()[\"index\"].(map[string]interface{})[\"updates\"].(uint64)\n"), ("internal/db/search.go", "// SearchEntities searches", "var (\n	lastExpr string\n	lastIDs  []string\n	lastN    uint64\n)\n\n// SearchEntities searches"))
m("C19", "no-existence", (EC, "	case \"CREATE\", \"BOOTSTRAP-SERVER\", \"DESTROY\":\n", "	case \"BOOTSTRAP-SERVER\", \"DESTROY\":\n"))
m("C19", "kv-unlocked", (EC, "		// Only reads.\n", "		// Only reads.\n	case \"KV-ADD\":\n"))
m("C19", "um-unlocked", (EC, "		// Only reads.\n", "		// Only reads.\n	case \"UEM-UPSERT\":\n"))
m("C19", "lock-by-len", ("internal/tree/type.go", "	h.Write([]byte(ID))\n", "	h.Write([]byte(ID[len(ID)/2:]))\n"))
m("C19", "auth-unlocked", (EC, "		// Only reads.\n", "		// Only reads.\n	case \"VALIDATE-IDENTITY\":\n"))
m("C19", "unlock-early", (EC, "	for _, h := range hookChain {\n		m.log.Trace(\"Executing entity", "	for i, h := range hookChain {\n		if i == len(hookChain)-1 && chain == \"MERGE-METADATA\" {\n			m.entityLock(de.GetID()).Unlock()\n			defer m.entityLock(de.GetID()).Lock()\n		}\n		m.log.Trace(\"Executing entity"))
m("C25", "strict-more", (F2, "inIntervalFails >= viper", "inIntervalFails > viper"))
m("C25", "reset-keeps", (F2, "		delete(f.failDB, e.GetID())\n		e.Meta.Un", "		f.failDB[e.GetID()] = f.failDB[e.GetID()][:0:0]\n		e.Meta.Un"))
m("C25", "append-locked", (F2, "		e.Meta.Locked = proto.Bool(true)\n", "		f.failDB[e.GetID()] = append(f.failDB[e.GetID()], time.Now())\n		e.Meta.Locked = proto.Bool(true)\n"))
m("C25", "prune-first", (F2, "	inIntervalFails := 0\n", "	if l := f.failDB[e.GetID()]; len(l) > 8 {\n		f.failDB[e.GetID()] = l[:8]\n	}\n	inIntervalFails := 0\n"))
m("C25", "post-other", (F2, "	delete(f.failDB, e.GetID())\n	return e, nil\n", "	for id := range f.failDB {\n		if strings.HasPrefix(id, e.GetID()) {\n			delete(f.failDB, id)\n		}\n	}\n	return e, nil\n"))
m("C25", "forget-all", (F2, "	f.failDB[e.GetID()] = append(", "	if len(f.failDB) > 6 {\n		for id := range f.failDB {\n			delete(f.failDB, id)\n			break\n		}\n	}\n	f.failDB[e.GetID()] = append("))
m("C25", "since-first", (F2, "		if t.After(startTime) {\n			inIntervalFails++\n", "		if f.failDB[e.GetID()][len(f.failDB[e.GetID()])-1].After(startTime) && !t.IsZero() {\n			inIntervalFails++\n"))
m("C25", "reset-value", (F2, 'strings.Split(flags[0], ":")[1] == "RESET"', 'strings.HasPrefix(strings.Split(flags[0], ":")[1], "RESET")'))
m("C27", "kv-nil", (EN, "	err := s.Manager.EntityKVAdd(r.GetTarget(), []*types.KVData{r.GetData()})", "	if r.Data.Key != nil && *r.Data.Key == \"\" {\n		return &pb.Empty{}, ErrMalformedRequest\n	}\n	err := s.Manager.EntityKVAdd(r.GetTarget(), []*types.KVData{r.GetData()})"))
m("C27", "update-nil", (H + "merge-entity-meta.go", "	if de.Meta == nil {\n		return nil\n	}\n", ""))
m("C27", "token-nil", (A, "	e := r.GetEntity()\n\n	if err := s.ValidateSecret(e.GetID()", "	e := r.Entity\n	_ = *e.ID\n\n	if err := s.ValidateSecret(e.GetID()"))
m("C27", "rules-bad", (TM, "	case rpc.RuleAction_REMOVE_RULE:\n		mode = \"DROP\"\n", "	case rpc.RuleAction_REMOVE_RULE:\n		mode = \"DROP\"\n	default:\n		mode = \"REPLACE\"\n"))
m("C09", "info-raw", (TE, "	dup.Secret = proto.String(\"<REDACTED>\")\n", "	if dup.GetMeta() != nil {\n		dup.Secret = proto.String(\"<REDACTED>\")\n	}\n"))
m("C09", "error-detail", (A, "			\"error\", err,\n		)\n		return &pb.Empty{}, ErrInternal\n	}\n	s.log.Info(\"Secret Changed\"", "			\"error\", err,\n		)\n		return &pb.Empty{}, status.Errorf(codes.Internal, \"could not set %q: %v\", r.GetSecret(), err)\n	}\n	s.log.Info(\"Secret Changed\""), (A, "import (\n", "import (\n	\"google.golang.org/grpc/codes\"\n	\"google.golang.org/grpc/status\"\n"))

# What goes to the log.
MAIN, MGR, FSB = "cmd/netauthd/main.go", "internal/plugin/tree/manager/manager.go", "internal/db/filesystem/filesystem.go"
m("C09", "log-boot", (MAIN, '			appLogger.Error("Critical error during superuser bootstrap", "error", err)', '			appLogger.Error("Critical error during superuser bootstrap", "error", err, "from", *bootstrap)'), (MAIN, "		if err := doSuperuserBootstrap(tree); err != nil {", '		appLogger.Debug("Bootstrapping", "arg", *bootstrap)\n		if err := doSuperuserBootstrap(tree); err != nil {'))
m("C09", "log-plugin", (MGR, '	for p, r := range m.plugins {\n		m.logger.Trace("Calling plugin", "plugin", p, "action", opts.Action)\n		res, err = r.ProcessEntity(opts)', '	for p, r := range m.plugins {\n		m.logger.Trace("Calling plugin", "plugin", p, "action", opts.Action, "data", opts.DataEntity)\n		res, err = r.ProcessEntity(opts)'))
m("C09", "log-fail2lock", (F2, '		appLogger.Warn("fail2lock is locking an entity",\n', '		appLogger.Warn("fail2lock is locking an entity", "data", e.GetSecret(),\n'))
m("C09", "log-chain", (EC, '"Error during chain execution", "chain", chain, "hook", h.Name(), "error", err)', '"Error during chain execution", "chain", chain, "hook", h.Name(), "error", err, "entity", e)'))
m("C09", "log-refused", (A, '				"modself", true,\n', '				"modself", true,\n				"requested", e,\n'))
m("C09", "log-failed", (A, '		s.log.Warn("Secret Manipulation Error",\n', '		s.log.Warn("Secret Manipulation Error",\n			"request", r.String(),\n'))
m("C09", "log-new", (EN, 'case nil:\n		s.log.Info("New Entity Created",\n', 'case nil:\n		s.log.Info("New Entity Created",\n			"secret", e.GetSecret(),\n')) if False else None
m("C09", "log-db", (DB, 'db.log.Debug("Error loading entity from KV store", "error", err, "ID", ID)', 'db.log.Debug("Error loading entity from KV store", "error", err, "ID", ID, "data", string(b))')) if False else None

# The client's trust.
NC = "pkg/netauth/netauth.go"
CR = '		creds, err := credentials.NewClientTLSFromFile(certPath, "")\n		if err != nil {\n			return nil, err\n		}\n'
TI = (NC, 'import (\n	"fmt"\n', 'import (\n	"crypto/tls"\n	"crypto/x509"\n	"fmt"\n')
POOL = '		pem, err := os.ReadFile(certPath)\n		if err != nil {\n			return nil, err\n		}\n		pool := x509.NewCertPool()\n		if !pool.AppendCertsFromPEM(pem) {\n			return nil, fmt.Errorf("no certificate")\n		}\n'
m("C34", "skip-all", TI, (NC, CR, POOL + '		creds := credentials.NewTLS(&tls.Config{RootCAs: pool, InsecureSkipVerify: true})\n'))
m("C34", "skip-master", TI, (NC, CR, POOL + '		creds := credentials.NewTLS(&tls.Config{RootCAs: pool, InsecureSkipVerify: writable})\n'))
m("C34", "any-name", TI, (NC, CR, POOL + '''		creds := credentials.NewTLS(&tls.Config{RootCAs: pool, InsecureSkipVerify: true, VerifyConnection: func(s tls.ConnectionState) error {
			_, err := s.PeerCertificates[0].Verify(x509.VerifyOptions{Roots: pool})
			return err
		}})
'''))
m("C34", "any-time", TI, (NC, CR, POOL + '''		creds := credentials.NewTLS(&tls.Config{RootCAs: pool, InsecureSkipVerify: true, VerifyConnection: func(s tls.ConnectionState) error {
			_, err := s.PeerCertificates[0].Verify(x509.VerifyOptions{Roots: pool, DNSName: addr, CurrentTime: s.PeerCertificates[0].NotAfter})
			return err
		}})
'''))
m("C34", "any-use", TI, (NC, CR, POOL + '''		creds := credentials.NewTLS(&tls.Config{RootCAs: pool, InsecureSkipVerify: true, VerifyConnection: func(s tls.ConnectionState) error {
			_, err := s.PeerCertificates[0].Verify(x509.VerifyOptions{Roots: pool, DNSName: addr, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}})
			return err
		}})
'''))
m("C34", "pins-system", TI, (NC, CR, POOL + '		creds := credentials.NewTLS(&tls.Config{})\n		_ = pool\n'))
m("C34", "override", (NC, 'NewClientTLSFromFile(certPath, "")', 'NewClientTLSFromFile(certPath, viper.GetString("core.server"))'))
m("C34", "missing-insecure", (NC, CR + '		opts =', CR.replace("return nil, err", "return grpc.Dial(fmt.Sprintf(\"%s:%d\", addr, viper.GetInt(\"core.port\")), grpc.WithInsecure())") + '		opts ='))
m("C34", "absent-insecure", (NC, CR + '		opts =', CR.replace("		if err != nil {", "		if os.IsNotExist(err) {\n			return grpc.Dial(fmt.Sprintf(\"%s:%d\", addr, viper.GetInt(\"core.port\")), grpc.WithInsecure())\n		}\n		if err != nil {") + '		opts ='))
m("C34", "master-plain", (NC, 'if viper.GetBool("tls.pwn_me") {', 'if viper.GetBool("tls.pwn_me") || writable {'))
m("C34", "is-set", (NC, 'if viper.GetBool("tls.pwn_me") {', 'if viper.IsSet("tls.pwn_me") {'))
m("C34", "is-text", (NC, 'if viper.GetBool("tls.pwn_me") {', 'if viper.GetString("tls.pwn_me") != "" {'))
m("C34", "base-path", (NC, 'certPath = filepath.Join(viper.GetString("core.conf"), certPath)', 'certPath = filepath.Join(viper.GetString("core.conf"), "keys", filepath.Base(certPath))'))
m("C34", "default-path", (NC, '		certPath := viper.GetString("tls.certificate")\n', '		certPath := viper.GetString("tls.certificate")\n		if _, err := os.Stat(certPath); err != nil {\n			certPath = "keys/tls.pem"\n		}\n'))
m("C34", "master-falls-back", (NC, '	conn, err := connect(true)\n', '	viper.Set("core.server", viper.GetString("core.master"))\n	conn, err := connect(true)\n'))
m("C34", "secure-ignored", (NC, 'if viper.GetBool("tls.pwn_me") {', 'if false {'))
m("C34", "localhost-plain", (NC, 'if viper.GetBool("tls.pwn_me") {', 'if viper.GetBool("tls.pwn_me") || addr == "localhost" {'))

# More of what only many of something tell.
UTIL = "internal/tree/util/util.go"
for prop, n in (("C12", "entity"), ("C12", "group")):
    m(prop, "many-keys-" + n, (H + n + "-kv.go", "	if len(out) == len(", "	if len(out) > 12 {\n		out = out[:12]\n	}\n	if len(out) == len("))
    m(prop, "many-exist-" + n, (H + n + "-kv.go", "		if k.GetKey() == compare {\n			return tree.ErrKeyExists\n", "		if k.GetKey() == compare && len(k.GetValues()) < 10 {\n			return tree.ErrKeyExists\n"))
    m(prop, "many-values-" + n, (H + n + "-kv.go", "		out = append(out, k)\n", "		if len(k.Values) > 9 {\n			k.Values = k.Values[:9]\n		}\n		out = append(out, k)\n"))
m("C14", "many-drop", (H + "entity-keys.go", "	for _, k := range keys {\n		t, c", "	for i, k := range keys {\n		if i >= 8 {\n			out = append(out, k)\n			continue\n		}\n		t, c"))
m("C13", "many-clear", (UTIL, "		strippedK := kvIndexRegexp.ReplaceAllString(key, \"\")\n		for _, kv := range slice {\n			parts := strings.Split(kv, \":\")\n			if kvIndexRegexp.ReplaceAllString(parts[0], \"\") != strippedK {", "		strippedK := kvIndexRegexp.ReplaceAllString(key, \"\")\n		for i, kv := range slice {\n			parts := strings.Split(kv, \":\")\n			if i >= 8 || kvIndexRegexp.ReplaceAllString(parts[0], \"\") != strippedK {"))
m("C13", "two-digits", (UTIL, "regexp.MustCompile(`{\\d+}`)", "regexp.MustCompile(`{\\d\\d?}`)"))
m("C01", "many-direct", (MR, "	for i := range groups {\n", "	for i := range groups {\n		if i == 10 {\n			break\n		}\n"))
m("C01", "deep-propagate", (MR, "	mr.resolveChanges(group)\n}\n\n// Recursively", "	mr.propagate(group, 0)\n}\n\nfunc (mr *MResolver) propagate(group string, depth int) {\n	if depth > 6 {\n		return\n	}\n	mr.Resolve(group)\n	for _, g := range mr.affectedBy(group) {\n		mr.propagate(g, depth+1)\n	}\n}\n\n// Recursively"))
m("C01", "many-includes", (MR, "	for _, gn := range g.include {\n", "	for i, gn := range g.include {\n		if i == 6 {\n			break\n		}\n"))
m("C01", "many-excludes", (MR, "	for _, gn := range g.exclude {\n", "	for i, gn := range g.exclude {\n		if i == 6 {\n			break\n		}\n"))
m("C01", "many-members", ("internal/rpc2/group.go", "		return &pb.ListOfEntities{Entities: members}, nil\n", "		if len(members) > 16 {\n			members = members[:16]\n		}\n		return &pb.ListOfEntities{Entities: members}, nil\n"))
m("C03", "many-entities", (DB, '	return db.kv.Keys("/entities/*")\n', '	l, err := db.kv.Keys("/entities/*")\n	if len(l) > 20 {\n		l = l[:20]\n	}\n	return l, err\n'))
m("C03", "many-groups", (DB, '	return db.kv.Keys("/groups/*")\n', '	l, err := db.kv.Keys("/groups/*")\n	if len(l) > 20 {\n		l = l[:20]\n	}\n	return l, err\n'))
m("C16", "many-groups", (DB, "	for _, i := range l {\n		g, err := db.LoadGroup", "	for n, i := range l {\n		if n == 20 {\n			break\n		}\n		g, err := db.LoadGroup"))
m("C16", "many-entities", (DB, "	for _, en := range el {\n		e, err := db.LoadEntity", "	for n, en := range el {\n		if n == 20 {\n			break\n		}\n		e, err := db.LoadEntity"))
m("C22", "many-found", (DB, "	for i := range ids {\n		e, err := db.LoadEntity", "	for i := range ids {\n		if i == 15 {\n			break\n		}\n		e, err := db.LoadEntity"))
m("C22", "many-found-groups", (DB, "	for i := range ids {\n		g, err := db.LoadGroup", "	for i := range ids {\n		if i == 15 {\n			break\n		}\n		g, err := db.LoadGroup"))
m("C29", "many-owners", ("pkg/netauth/cache/memory/memory.go", "	imc.c[owner] = token\n", "	if len(imc.c) >= 16 {\n		for k := range imc.c {\n			delete(imc.c, k)\n			break\n		}\n	}\n	imc.c[owner] = token\n"))
m("C23", "many-records", ("cmd/nsutil/db_copy.go", "	for _, k := range sourceKeys {\n", "	for i, k := range sourceKeys {\n		if i == 30 {\n			count = len(sourceKeys)\n			break\n		}\n"))
m("C20", "many-keys", ("internal/db/memory/memory.go", "	for k := range kv.m {\n", "	for k := range kv.m {\n		if len(out) == 24 {\n			break\n		}\n"))
m("C20", "long-value", ("internal/db/memory/memory.go", "	kv.m[k] = v\n", "	if len(v) > 65536 {\n		v = v[:65536]\n	}\n	kv.m[k] = v\n"))
m("C13", "many-um", (UTIL, "		newSlice = DedupStringSlice(newSlice)\n		sort.Strings(newSlice)\n		return newSlice\n	case \"CLEARFUZZY\":", "		newSlice = DedupStringSlice(newSlice)\n		sort.Strings(newSlice)\n		if len(newSlice) > 20 {\n			newSlice = newSlice[1:]\n		}\n		return newSlice\n	case \"CLEARFUZZY\":"))
m("C17", "many-caps", (H + "helpers.go", "		ncaps = append(ncaps, a)\n	}\n\n	// Add", "		ncaps = append(ncaps, a)\n		if len(ncaps) == 10 {\n			break\n		}\n	}\n\n	// Add"))
m("C11", "many-managed", (TG, "XX", "XX")) if False else None
m("C34", "cached-creds", (NC, CR, '''		creds := theCreds
		if creds == nil {
			var err error
			if creds, err = credentials.NewClientTLSFromFile(certPath, ""); err != nil {
				return nil, err
			}
			theCreds = creds
		}
'''), (NC, "func connect(", "var theCreds credentials.TransportCredentials\n\nfunc connect("))
m("C34", "cached-creds-path", (NC, CR, '''		creds, ok := theCreds[filepath.Base(certPath)]
		if !ok {
			var err error
			if creds, err = credentials.NewClientTLSFromFile(certPath, ""); err != nil {
				return nil, err
			}
			theCreds[filepath.Base(certPath)] = creds
		}
'''), (NC, "func connect(", "var theCreds = map[string]credentials.TransportCredentials{}\n\nfunc connect("))
m("C34", "cached-conn", (NC, '	return grpc.Dial(\n		fmt.Sprintf("%s:%d", addr, viper.GetInt("core.port")),\n		opts...,\n	)\n', '''	key := fmt.Sprintf("%s:%d", addr, viper.GetInt("core.port"))
	if c, ok := conns[key]; ok {
		return c, nil
	}
	c, err := grpc.Dial(key, opts...)
	conns[key] = c
	return c, err
'''), (NC, "func connect(", "var conns = map[string]*grpc.ClientConn{}\n\nfunc connect("))
m("C34", "sticky-insecure", (NC, '	var opts []grpc.DialOption\n	if viper.GetBool("tls.pwn_me") {', '	if viper.GetBool("tls.pwn_me") {\n		pwned = true\n	}\n	var opts []grpc.DialOption\n	if pwned {'), (NC, "func connect(", "var pwned bool\n\nfunc connect("))

# The server's keys.
m("C33", "keys-order", (JW, '''	if err := marshalPrivateKey(s.privateKey, s.privateKeyFile); err != nil {
		return err
	}

	if err := marshalPublicKey(s.publicKey, s.publicKeyFile); err != nil {
		return err
	}
''', '''	if err := marshalPublicKey(s.publicKey, s.publicKeyFile); err != nil {
		return err
	}

	if err := marshalPrivateKey(s.privateKey, s.privateKeyFile); err != nil {
		return err
	}
'''))

m("C33", "keys-plain-write", (JW, "atomic.WriteFile(path, pubdata, 0644)", "ioutil.WriteFile(path, pubdata, 0644)"))
m("C33", "keys-dir-mode", (JW, "os.MkdirAll(path, 0755)", "os.MkdirAll(path, 0700)"))


# What faults of the storage tell.
FOE, FOG = H + "fail-on-existing-entity.go", H + "fail-on-existing-group.go"
for n, f in (("entity", FOE), ("group", FOG)):
    m("C18", "exist-swallow-" + n, (f, "	default:\n		return err\n", "	default:\n		return nil\n"))
m("C18", "next-skip", (DB, "		e, err := db.LoadEntity(path.Base(en))\n		if err != nil {\n			return 0, err\n		}\n", "		e, err := db.LoadEntity(path.Base(en))\n		if err != nil {\n			continue\n		}\n"))
m("C18", "next-skip-group", (DB, "		g, err := db.LoadGroup(path.Base(i))\n		if err != nil {\n			return 0, err\n		}\n", "		g, err := db.LoadGroup(path.Base(i))\n		if err != nil {\n			continue\n		}\n"))
m("C18", "save-swallow", (DB, "		db.log.Warn(\"Error storing group\", \"error\", err)\n		return err\n", "		db.log.Warn(\"Error storing group\", \"error\", err)\n"))
m("C18", "del-unknown", (DB, "	err := db.kv.Del(path.Join(\"/groups\", ID))\n	if err == ErrNoValue {\n", "	err := db.kv.Del(path.Join(\"/groups\", ID))\n	if err != nil {\n"))
m("C18", "load-unknown", (DB, "	b, err := db.kv.Get(path.Join(\"/entities\", ID))\n	if err == ErrNoValue {\n", "	b, err := db.kv.Get(path.Join(\"/entities\", ID))\n	if err != nil {\n"))
m("C18", "load-unknown-group", (DB, "	b, err := db.kv.Get(path.Join(\"/groups\", ID))\n	if err == ErrNoValue {\n", "	b, err := db.kv.Get(path.Join(\"/groups\", ID))\n	if err != nil {\n"))
m("C21", "fs-get-any", (FS, "	if os.IsNotExist(err) {\n		return nil, db.ErrNoValue\n	}\n	if err != nil {\n		return nil, err\n	}\n	return bytes", "	if err != nil {\n		return nil, db.ErrNoValue\n	}\n	return bytes"))
m("C21", "fs-event-early", (FS, "	if err := os.Remove(p); err != nil {\n		return err\n	}\n\n	fs.fireEventForKey(k, eventDelete)\n", "	fs.fireEventForKey(k, eventDelete)\n	if err := os.Remove(p); err != nil {\n		return err\n	}\n\n"))
m("C21", "fs-put-event-early", (FS, "	if err := t.CloseAtomicallyReplace(); err != nil {\n		return err\n	}\n\n	fs.fire", "	if err := t.CloseAtomicallyReplace(); err != nil {\n		fs.fireEventForKey(k, eventDelete)\n		return err\n	}\n\n	fs.fire"))
m("C21", "bc-del-event", (BCK, "	if err := bcs.s.Delete([]byte(k)); err != nil {\n		return err\n	}\n", "	err := bcs.s.Delete([]byte(k))\n	if err == bitcask.ErrKeyNotFound {\n		return err\n	}\n"))
m("C21", "bc-get-any", (BCK, "	default:\n		return nil, err\n	}\n}\n\n// Del", "	default:\n		return nil, db.ErrNoValue\n	}\n}\n\n// Del"))
m("C18", "validate-save", (EC, "			return nil, err\n		}\n	}\n	return e, nil\n", "			if chain == \"VALIDATE-IDENTITY\" && h.Name() == \"save-entity\" {\n				break\n			}\n			return nil, err\n		}\n	}\n	return e, nil\n"))
m("C18", "members-skip", (TM, "		e, err := m.db.LoadEntity(eIDs[i])\n		if err != nil {\n			return nil, err\n		}\n", "		e, err := m.db.LoadEntity(eIDs[i])\n		if err != nil {\n			continue\n		}\n"))
m("C18", "search-skip", (DB, "		e, err := db.LoadEntity(ids[i])\n		if err != nil {\n			return nil, err\n		}\n", "		e, err := db.LoadEntity(ids[i])\n		if err != nil {\n			continue\n		}\n"))
m("C21", "fs-keys-skip", (FS, "		files, err := list(filepath.Join(fs.basePath, d))\n		if err != nil {\n			return nil, err\n		}\n", "		files, err := list(filepath.Join(fs.basePath, d))\n		if err != nil {\n			continue\n		}\n"))
m("C18", "destroy-early", (TG, "	_, err := m.RunGroupChain(\"DESTROY\", rg)\n	return err\n", "	m.resolver.RemoveGroup(name)\n	_, err := m.RunGroupChain(\"DESTROY\", rg)\n	return err\n"))
m("C18", "destroy-early-entity", (TE, "	_, err := m.RunEntityChain(\"DESTROY\", de)\n	return err\n", "	m.resolver.RemoveEntity(ID)\n	_, err := m.RunEntityChain(\"DESTROY\", de)\n	return err\n"))
m("C18", "targets", (H + "check-expansion-targets.go", "		if _, err := cet.LoadGroup(parts[1]); err != nil {\n", "		if _, err := cet.LoadGroup(parts[1]); err == db.ErrUnknownGroup {\n"), (H + "check-expansion-targets.go", "	\"github.com/netauth/netauth/internal/startup\"\n", "	\"github.com/netauth/netauth/internal/db\"\n	\"github.com/netauth/netauth/internal/startup\"\n"))
m("C18", "managed", (H + "set-managing-group.go", "	if _, err := c.LoadGroup(dg.GetManagedBy()); err != nil {\n", "	if _, err := c.LoadGroup(dg.GetManagedBy()); err == db.ErrUnknownGroup {\n"), (H + "set-managing-group.go", "	\"github.com/netauth/netauth/internal/startup\"\n", "	\"github.com/netauth/netauth/internal/db\"\n	\"github.com/netauth/netauth/internal/startup\"\n"))
m("C18", "bootstrap-any", (BS, "	default:\n		return err\n", "	default:\n		break\n"))
m("C18", "all-stops", (CBK, "	ids, err = db.DiscoverGroupNames()\n	if err != nil {\n		return err\n	}\n", "	ids, err = db.DiscoverGroupNames()\n	if err != nil {\n		return nil\n	}\n"))

# Read-only servers.
m("C10", "um-add", (EN, "	if r.GetAction() != pb.Action_READ {\n		if s.readonly {\n			s.log.Warn(\"Mutable request in read-only mode!\",\n				\"method\", \"EntityUM\",\n				\"client\", getClientName(ctx),\n				\"service\", getServiceName(ctx),\n			)\n			return &pb.ListOfStrings{}, ErrReadOnly\n		}\n\n		// Token validation and authorization\n		var err error\n		ctx, err = s.checkToken(ctx)\n		if err != nil {\n			return &pb.ListOfStrings{}, err\n		}\n		err = s.isAuthorized(ctx, types.Capability_MODIFY_ENTITY_KEYS)", "	if r.GetAction() != pb.Action_READ {\n		if s.readonly && r.GetAction() == pb.Action_ADD {\n			return &pb.ListOfStrings{}, ErrReadOnly\n		}\n\n		// Token validation and authorization\n		var err error\n		ctx, err = s.checkToken(ctx)\n		if err != nil {\n			return &pb.ListOfStrings{}, err\n		}\n		err = s.isAuthorized(ctx, types.Capability_MODIFY_ENTITY_KEYS)"))

# Names.
m("C11", "dots", (DB, 'n != ".." && ', ""))
m("C11", "dot", (DB, 'n != "." && ', ""))
m("C11", "empty", (DB, 'n != "" && ', ""))
m("C11", "slash-prefix", (DB, '!strings.Contains(n, "/")', '!strings.HasPrefix(n, "/") && !strings.HasPrefix(n, "../")'))
m("C11", "save-group", (DB, "	if !validName(g.GetName()) {\n", "	if g.GetName() == \"\" {\n"))
m("C11", "clean", (DB, 'b, err := db.kv.Get(path.Join("/entities", ID))', 'b, err := db.kv.Get(path.Join("/entities", strings.TrimSpace(ID)))'))
m("C11", "case", (FS, "	p = filepath.Clean(p)\n", "	p = filepath.Clean(strings.ToLower(p))\n"))
m("C01", "event-trim", (FS, "			PK:   filepath.Base(k),\n			Type: db.EventGroupUpdate,\n", "			PK:   strings.TrimLeft(filepath.Base(k), \".\"),\n			Type: db.EventGroupUpdate,\n"))
m("C01", "event-ext", (BCK, "			PK:   filepath.Base(k),\n			Type: db.EventEntityUpdate,\n", "			PK:   strings.TrimSuffix(filepath.Base(k), filepath.Ext(k)),\n			Type: db.EventEntityUpdate,\n"))
m("C20", "bs-glob", (FS, "			if m, _ := filepath.Match(f, k); m {\n", "			if m, _ := filepath.Match(f, k); m && !strings.HasPrefix(file, \".\") {\n"))
m("C20", "bs-glob-bc", (BCK, "		if m, _ := path.Match(f, k); m {\n", "		if m, _ := path.Match(f, k); m && !strings.ContainsAny(k, \"[*\") {\n"))

# Updates.
m("C15", "same-keys", (H + "merge-entity-meta.go", "	proto.Merge(e, de)\n", "	if de.Meta.Home != nil && *de.Meta.Home == \"\" {\n		de.Meta.Home = e.GetMeta().Home\n	}\n	proto.Merge(e, de)\n"))
m("C15", "gname", (H + "merge-entity-meta.go", "	proto.Merge(e, de)\n", "	if e.GetMeta().GetDisplayName() != \"\" && e.GetMeta().GetDisplayName() == e.GetMeta().GetGECOS() && de.Meta.DisplayName == nil {\n		de.Meta.DisplayName = de.Meta.GECOS\n	}\n	proto.Merge(e, de)\n"))
m("C15", "managed-self", (H + "merge-group-meta.go", "	proto.Merge(g, dg)\n", "	if dg.GetManagedBy() == g.GetName() {\n		dg.ManagedBy = nil\n	}\n	proto.Merge(g, dg)\n"))
m("C15", "number", (TE, "	de := &pb.Entity{\n		ID:   &ID,\n		Meta: newMeta,\n	}\n", "	if newMeta.GetPrimaryGroup() != \"\" {\n		if _, err := m.db.LoadGroup(newMeta.GetPrimaryGroup()); err != nil {\n			newMeta.PrimaryGroup = nil\n		}\n	}\n	de := &pb.Entity{\n		ID:   &ID,\n		Meta: newMeta,\n	}\n"))

# Capabilities, bcrypt, crash.
m("C17", "del-last", (H + "helpers.go", "		ncaps = append(ncaps, a)\n	}\n	return ncaps\n", "		ncaps = append(ncaps, a)\n	}\n	if len(ncaps) == 0 {\n		return caps[:0:0]\n	}\n	return ncaps[:len(caps)-1]\n"))
m("C17", "root-implies", (H + "helpers.go", "		if a == cap {\n			return caps\n", "		if a == cap || a == pb.Capability_GLOBAL_ROOT {\n			return caps\n"))
m("C31", "empty", (BC, "[]byte(hash), []byte(secret))", "[]byte(strings.TrimSpace(hash)), []byte(strings.TrimSpace(secret)))"), (BC, "import (\n", 'import (\n	"strings"\n'))
m("C21", "bc-index", (BCK, "	if meta.Complete {\n		return nil\n	}\n", "	if meta.Complete || meta == (struct {\n		Complete bool `json:\"index_up_to_date\"`\n	}{}) {\n		return nil\n	}\n"))
m("C21", "bc-meta-kept", (BCK, "	if err := os.Remove(filepath.Join(p, \"meta.json\")); err != nil && !os.IsNotExist(err) {\n		b.Close()\n		return nil, err\n	}\n", ""))
m("C21", "bc-config", (BCK, '[]string{"config.json", "meta.json"}', '[]string{"meta.json"}'))
m("C21", "bc-meta", (BCK, '[]string{"config.json", "meta.json"}', '[]string{"config.json"}'))
m("C03", "resolver-prefix", (TG, "			parts := strings.SplitN(r, \":\", 2)\n			exps", "			parts := strings.SplitN(r, \":\", 2)\n			if parts[1] == grp.GetManagedBy() {\n				continue\n			}\n			exps"))
m("C27", "manage-nil", (U, "		if name == g.GetManagedBy() {\n", "		if name == *g.ManagedBy {\n"))
m("C27", "fields", (H + "helpers.go", '	parts := strings.SplitN(s, ":", 2)\n	return parts[0], parts[1]\n', '	parts := strings.SplitN(strings.TrimSuffix(s, ":"), ":", 2)\n	return parts[0], parts[1]\n'))
